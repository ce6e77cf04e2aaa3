// P23: several processes share data files.
//
// Processes open, append, read and close; system calls of the lock protocol are interposed
// to wait a random short time, so that the schedules differ.  Every process writes its
// events to one log in shared memory; the oracle is over that log and the final files.
#include "sdfmodel.h"
#include <atomic>
#include <sched.h>
#include <sys/file.h>
#include <sys/syscall.h>
using namespace sdfm;

static bool jitter_on = false;
static mon::Rng jit(1);
static double jitter_p = 0.3;
static long jitter_max = 300;
static void jitter() {
  if (!jitter_on || !jit.chance(jitter_p)) return;
  if (jit.chance(0.3)) sched_yield();
  else { struct timespec t = {0, jit.in(1, jitter_max) * 1000}; syscall(SYS_nanosleep, &t, 0); }
}
static std::atomic<long> *sleeps = 0;  // of a waiting process, when somebody counts them
static long long slept_us = 0;         // time the process believes it has slept
extern "C" {
time_t time(time_t *t) noexcept {
  time_t r = syscall(SYS_time, 0) + slept_us / 1000000;
  if (t) *t = r;
  return r;
}
int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  long r = syscall(SYS_clock_gettime, c, t);
  if (r == 0) {
    long long ns = t->tv_nsec + (slept_us % 1000000) * 1000;
    t->tv_sec += slept_us / 1000000 + ns / 1000000000;
    t->tv_nsec = ns % 1000000000;
  }
  return r;
}
int gettimeofday(struct timeval *t, void *) noexcept {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
unsigned sleep(unsigned s) {
  if (sleeps) {
    ++*sleeps;
    slept_us += s * 1000000LL;
    struct timespec t = {0, jit.in(1, 20) * 1000};
    syscall(SYS_nanosleep, &t, 0);
    return 0;
  }
  if (!jitter_on) { struct timespec t = {(time_t)s, 0}; syscall(SYS_nanosleep, &t, 0); return 0; }
  struct timespec t = {0, jit.in(20, 400) * 1000};
  syscall(SYS_nanosleep, &t, 0);
  return 0;
}
int usleep(useconds_t u) { if (sleeps) { ++*sleeps; slept_us += u; u = 0; } struct timespec t = {u / 1000000, (u % 1000000) * 1000L}; if (jitter_on) { t.tv_sec = 0; t.tv_nsec = jit.in(20, 400) * 1000; } syscall(SYS_nanosleep, &t, 0); return 0; }
int flock(int fd, int op) noexcept {
  jitter();
  long r = syscall(SYS_flock, fd, op);
  int e = r < 0 ? errno : 0;
  jitter();
  errno = e;
  return r;
}
int unlink(const char *p) noexcept {
  jitter();
  long r = syscall(SYS_unlink, p);
  int e = r < 0 ? errno : 0;
  jitter();
  errno = e;
  return r;
}
int close(int fd) {
  jitter();
  long r = syscall(SYS_close, fd);
  int e = r < 0 ? errno : 0;
  jitter();
  errno = e;
  return r;
}
int access(const char *p, int m) noexcept {
  long r = syscall(SYS_access, p, m);
  int e = r < 0 ? errno : 0;
  jitter();
  errno = e;
  return r;
}
mode_t umask(mode_t m) noexcept {  // called around the opening of the lock file
  mode_t r = syscall(SYS_umask, m);
  jitter();
  return r;
}
}

enum Event { ENTER_W, ENTER_R, LEAVE, DIE, WROTE, READ_ };
static const char *event_names[] = {"opened for writing", "opened for reading", "closes", "dies", "wrote", "read"};
const int FILES = 2, MAXLOG = 4000;
struct Entry { int proc, file, event; long value; };
struct Log {
  std::atomic<long> n, bad;
  std::atomic<long> holder[FILES], count[FILES], made[FILES], started;
  long order[FILES][MAXLOG];
  Entry e[MAXLOG * 4];
  char msg[2000];
};
static Log *the_log = 0;
static void record(int proc, int file, Event ev, long value) {
  long i = the_log->n.fetch_add(1);
  if (i < MAXLOG * 4) { Entry x = {proc, file, ev, value}; the_log->e[i] = x; }
}
static void complain(const std::string &m) {
  if (the_log->bad.fetch_add(1) == 0) snprintf(the_log->msg, sizeof the_log->msg, "%s", m.c_str());
}
static Record record_of(mon::u64 seed, long id) {
  mon::Rng r(mon::mix(seed ^ mon::mix(id)));
  Record q = any_record(r, id % 16 == 0);
  q.name = "record " + std::to_string(id);
  return q;
}
// After the constructor returned and before the session is closed nobody else may be here.
static void enter(int proc, int file, Event ev) {
  long was = the_log->holder[file].exchange(proc + 1);
  record(proc, file, ev, was);
  if (was) { std::ostringstream o; o << "process " << proc << " " << event_names[ev] << " file " << file << " while process " << was - 1 << " has it open"; complain(o.str()); }
}
static void leave(int proc, int file, Event ev) {
  long expect = proc + 1;
  if (!the_log->holder[file].compare_exchange_strong(expect, 0)) {
    std::ostringstream o;
    o << "process " << proc << " " << event_names[ev] << " file " << file << " but process " << expect - 1 << " opened it meanwhile";
    complain(o.str());
  }
  record(proc, file, ev, expect);
}
static void writer(int proc, int file, const std::string &path, mon::u64 seed, mon::Rng &r, bool die);
static void reader(int proc, int file, const std::string &path, mon::u64 seed, mon::Rng &r) {
  sdf::InDataFile f(path);
  enter(proc, file, ENTER_R);
  long n = the_log->count[file], upto = r.chance(0.7) ? n : r.in(0, n);
  jitter();
  for (long k = 0; k < upto; k++) {
    Record q = record_of(seed, the_log->order[file][k]);
    std::string bad = load(f, q, q.name, 0);
    if (bad.size()) { complain("record " + std::to_string(k) + " of file " + std::to_string(file) + " read as " + bad); break; }
  }
  record(proc, file, READ_, upto);
  leave(proc, file, LEAVE);
  if (r.chance(0.5)) f.close();
}
static void writer(int proc, int file, const std::string &path, mon::u64 seed, mon::Rng &r, bool die) {
  sdf::OutDataFile f(path);
  enter(proc, file, ENTER_W);
  the_log->made[file] = 1;
  jitter();
  for (long n = r.in(0, 3); n-- > 0;) {
    long k = the_log->count[file];
    if (k >= MAXLOG - 1) break;
    long id = proc * 100000L + file * 50000L + k;
    dump(f, record_of(seed, id));
    jitter();
    the_log->order[file][k] = id;
    the_log->count[file] = k + 1;
    record(proc, file, WROTE, id);
  }
  leave(proc, file, die ? DIE : LEAVE);
  if (die) _exit(0);
  if (r.chance(0.5)) f.close();
}
static std::string tail_of_log() {
  std::ostringstream o;
  long n = std::min<long>(the_log->n, MAXLOG * 4);
  for (long i = std::max(0L, n - 24); i < n; i++) {
    const Entry &x = the_log->e[i];
    o << " | p" << x.proc << " " << event_names[x.event] << " f" << x.file;
  }
  return o.str();
}
FAMILY(P23, sessions, 1600, 40000) {
  if (!the_log) the_log = (Log *)mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)the_log, 0, offsetof(Log, order));
  the_log->msg[0] = 0;
  std::string dir = mon::scratch_dir(), path[FILES];
  for (int f = 0; f < FILES; f++) {
    path[f] = dir + "/shared" + std::to_string(f);
    unlink(path[f].c_str());
    unlink((path[f] + ".lck").c_str());
  }
  mon::u64 seed = c.r.next();
  int procs = c.r.in(2, 6), files = c.r.in(1, FILES);
  long rounds = c.r.in(4, mon::thorough() ? 40 : 16);
  jitter_p = c.r.pick(std::vector<double>{0, 0.1, 0.4, 0.8});
  jitter_max = c.r.pick(std::vector<long>{20, 200, 800});
  double p_die = c.r.chance(0.4) ? 0.08 : 0, p_read = c.r.pick(std::vector<double>{0, 0.3, 0.6});
  bool no_stdin = c.r.chance(0.15), nested = files == 2 && c.r.chance(0.5), relative = c.r.chance(0.3);
  c.what << procs << " processes of " << rounds << " sessions on " << files << " files, delays " << jitter_p << "x" << jitter_max
         << "us, deaths " << p_die << " reads " << p_read << (no_stdin ? " no stdin" : "") << (nested ? " nested" : "") << " seed " << seed;
  // Files that exist can be read at once; those that do not are created by whoever comes first.
  bool fresh = c.r.chance(0.6);
  if (fresh) c.what << " new files";
  for (int f = 0; f < files; f++) if (!fresh) { sdf::OutDataFile o(path[f]); the_log->made[f] = 1; }
  c.ready();
  fflush(stdout);
  fflush(stderr);
  std::vector<pid_t> kids;
  for (int p = 0; p < procs; p++) {
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(99); }
    if (!pid) {
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      if (no_stdin && p == 0) close(0);
      if (relative && p % 2 && chdir(dir.c_str()) == 0) for (int f = 0; f < files; f++) path[f] = "./shared" + std::to_string(f);
      mon::Rng r(mon::mix(seed + 31 * p + 1));
      jit = mon::Rng(mon::mix(seed + 97 * p + 5));
      jitter_on = true;
      the_log->started++;
      for (long spin = 0; the_log->started < procs && spin < 200000; spin++) if (spin % 64 == 0) sched_yield();
      for (long k = 0; k < rounds; k++) {
        int f = r.below(files);
        bool die = r.chance(p_die);
        if (nested && f == 0 && the_log->made[0] && the_log->made[1] && r.chance(0.3)) {  // holds one file while using the other
          sdf::OutDataFile outer(path[0]);
          enter(p, 0, ENTER_W);
          if (r.chance(0.5)) reader(p, 1, path[1], seed, r); else writer(p, 1, path[1], seed, r, false);
          leave(p, 0, LEAVE);
        } else if (the_log->made[f] && r.chance(p_read)) reader(p, f, path[f], seed, r);
        else writer(p, f, path[f], seed, r, die);
        if (r.chance(0.3)) sched_yield();
      }
      _exit(0);
    }
    kids.push_back(pid);
  }
  std::string odd;
  for (size_t p = 0; p < kids.size(); p++) {
    int st;
    while (waitpid(kids[p], &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) odd += " process " + std::to_string(p) + " ended with status " + std::to_string(st);
    mon::shared()->aborts++;
  }
  mon::shared()->events += the_log->n;
  // the interleaving seen: the order of processes in the log
  std::string order;
  for (long i = 0; i < std::min<long>(the_log->n, MAXLOG * 4); i++) { order += (char)('a' + the_log->e[i].proc); order += (char)('0' + the_log->e[i].event); }
  c.saw(order);
  CHECK_MSG(c, the_log->bad == 0, the_log->msg[0] == 'p' ? "sessions:two at once" : "sessions:misread", the_log->bad << " complaints, first: " << the_log->msg << tail_of_log());
  CHECK_MSG(c, odd.empty(), "sessions:process ended", odd << tail_of_log());
  for (int f = 0; f < files; f++) {
    long n = the_log->count[f];
    if (!the_log->made[f]) continue;
    mon::ChildEnd e = mon::run_child([&]() {
      sdf::InDataFile in(path[f]);
      for (long k = 0; k < n; k++) {
        Record q = record_of(seed, the_log->order[f][k]);
        std::string bad = load(in, q, q.name, 0);
        if (bad.size()) { fprintf(stderr, "record %ld is %s\n", k, bad.c_str()); _exit(51); }
      }
    });
    CHECK_MSG(c, e.returned, "sessions:records", "of " << n << " records: " << e.text());
    e = mon::run_child([&]() {  // nothing after them
      sdf::InDataFile in(path[f]);
      for (long k = 0; k < n; k++) { Record q = record_of(seed, the_log->order[f][k]); load(in, q, q.name, 0); }
      RTensor t;
      in.load(&t);
    });
    CHECK_MSG(c, e.aborted(), "sessions:more records", "than " << n << " in the file: " << e.text());
  }
}
static void noted(int) {}
// However long the owner keeps the file (hours, for what the others can tell by their clocks and sleeps), nobody else gets in
FAMILY(P23, patience, 160, 4000) {
  if (!the_log) the_log = (Log *)mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)the_log, 0, offsetof(Log, order));
  the_log->msg[0] = 0;
  static std::atomic<long> *count = (std::atomic<long> *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string path = mon::scratch_dir() + "/held";
  unlink(path.c_str());
  unlink((path + ".lck").c_str());
  int waiters = c.r.in(1, 3);
  long most = c.r.pick(std::vector<long>{20, 150, 1000, 4000});
  bool reads = c.r.chance(0.4), signals = c.r.chance(0.5), fresh = !reads && c.r.chance(0.4), owner_reads = !fresh && c.r.chance(0.3), dies = c.r.chance(0.2);
  mon::u64 seed = c.r.next();
  c.what << "patience of " << waiters << (reads ? " readers" : " writers") << " for " << most << " sleeps" << (signals ? " signals" : "") << (fresh ? " new file" : "") << (owner_reads ? " owner reads" : "") << (dies ? " owner dies" : "");
  c.ready();
  c.saw_what();
  if (!fresh) { sdf::OutDataFile o(path); }
  for (int k = 0; k < 8; k++) count[k] = 0;
  fflush(stdout);
  fflush(stderr);
  std::vector<pid_t> kids;
  for (int p = 0; p <= waiters; p++) {
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(99); }
    if (!pid) {
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      alarm(100);
      mon::Rng r(mon::mix(seed + 31 * p + 1));
      jit = mon::Rng(mon::mix(seed + 97 * p + 5));
      jitter_p = 0.1;
      jitter_max = 100;
      jitter_on = true;
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = noted;
      sigaction(SIGUSR1, &sa, 0);
      if (p == 0) {
        union { sdf::InDataFile *in; sdf::OutDataFile *out; } f;
        if (owner_reads) f.in = new sdf::InDataFile(path); else f.out = new sdf::OutDataFile(path);
        enter(0, 0, owner_reads ? ENTER_R : ENTER_W);
        count[0] = 1;
        // until everybody has waited long enough
        for (long spin = 0; spin < 60000; spin++) {
          bool all = true;
          for (int k = 1; k <= waiters; k++) if (count[k] < most) all = false;
          if (all) break;
          struct timespec t = {0, 100000};
          syscall(SYS_nanosleep, &t, 0);
        }
        if (!owner_reads) { RTensor one(1); one.at(0) = 1.0; f.out->dump(one, "owner"); }
        leave(0, 0, dies ? DIE : LEAVE);
        if (dies) _exit(0);
        if (owner_reads) delete f.in; else delete f.out;
      } else {
        while (!count[0]) sched_yield();
        sleeps = &count[p];
        if (reads) { sdf::InDataFile f(path); enter(p, 0, ENTER_R); jitter(); leave(p, 0, LEAVE); }
        else { sdf::OutDataFile f(path); enter(p, 0, ENTER_W); RTensor one(1); one.at(0) = 1.0 + p; f.dump(one, "waiter"); jitter(); leave(p, 0, LEAVE); }
      }
      _exit(0);
    }
    kids.push_back(pid);
  }
  if (signals) for (int k = 0; k < 20; k++) {
    struct timespec t = {0, 300000};
    syscall(SYS_nanosleep, &t, 0);
    if (count[0]) for (size_t p = 1; p < kids.size(); p++) if (count[p] > 0 && count[p] < most / 2) kill(kids[p], SIGUSR1);
  }
  std::string odd;
  long least = 1L << 60;
  for (size_t p = 0; p < kids.size(); p++) {
    int st;
    while (waitpid(kids[p], &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) odd += " process " + std::to_string(p) + " never got in";
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) odd += " process " + std::to_string(p) + " ended with status " + std::to_string(st);
    if (p) least = std::min<long>(least, count[p]);
    mon::shared()->aborts++;
  }
  mon::shared()->events += the_log->n + least;
  CHECK_MSG(c, the_log->bad == 0, "patience:two at once", the_log->bad << " complaints, first: " << the_log->msg << " after " << least << " sleeps" << tail_of_log());
  CHECK_MSG(c, odd.empty(), "patience:process ended", odd << tail_of_log());
  mon::ChildEnd e = mon::run_child([&]() {
    sdf::InDataFile in(path);
    double x;
    bool got[8] = {};
    if (!owner_reads) { in.load(&x, "owner"); if (x != 1) _exit(51); }
    if (!reads) for (int k = 0; k < waiters; k++) { in.load(&x, "waiter"); if (x < 2 || x > waiters + 1 || got[(int)x]) _exit(52); got[(int)x] = true; }
  });
  CHECK_MSG(c, e.returned, "patience:records", e.text());
}
MON_MAIN
