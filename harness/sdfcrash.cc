// P22: the careful mode under crashes and write errors at every system call of the session.
//
// The session runs in a child that this process traces with ptrace: it sees every system
// call that touches the file system, kills the child before or after any of them, cuts
// writes short or makes calls fail.  The oracle looks at the directory afterwards.
#include "sdfmodel.h"
#include <dirent.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>
using namespace sdfm;

struct Plan {
  enum Kind { NONE, KILL_BEFORE, KILL_AFTER, CUT_KILL, SHORT, FAIL_ONCE, FAIL_ON } kind;
  long at;        // index among the system calls of that kind of plan
  int err;
  std::string text() const {
    static const char *n[] = {"undisturbed", "killed before call", "killed after call", "killed within write", "short write at call", "failure of call", "failure from call"};
    std::ostringstream o;
    o << n[kind];
    if (kind) o << " " << at;
    if (kind >= FAIL_ONCE) o << " (" << strerror(err) << ")";
    return o.str();
  }
};
struct Outcome { bool finished, killed, aborted, hung; int status; long calls, writes, fallible; std::string last, trace; };

static const char *call_name(long nr) {
  switch (nr) {
  case SYS_write: return "write"; case SYS_writev: return "writev"; case SYS_pwrite64: return "pwrite"; case SYS_pwritev: return "pwritev";
  case SYS_open: return "open"; case SYS_openat: return "openat"; case SYS_creat: return "creat"; case SYS_close: return "close";
  case SYS_rename: return "rename"; case SYS_renameat: return "renameat"; case SYS_renameat2: return "renameat2";
  case SYS_unlink: return "unlink"; case SYS_unlinkat: return "unlinkat"; case SYS_link: return "link"; case SYS_linkat: return "linkat";
  case SYS_symlink: return "symlink"; case SYS_symlinkat: return "symlinkat";
  case SYS_truncate: return "truncate"; case SYS_ftruncate: return "ftruncate"; case SYS_fsync: return "fsync"; case SYS_fdatasync: return "fdatasync";
  case SYS_access: return "access"; case SYS_faccessat: return "faccessat"; case SYS_faccessat2: return "faccessat2";
  case SYS_stat: return "stat"; case SYS_fstat: return "fstat"; case SYS_lstat: return "lstat"; case SYS_newfstatat: return "newfstatat";
  case SYS_sendfile: return "sendfile"; case SYS_copy_file_range: return "copy_file_range"; case SYS_splice: return "splice";
  case SYS_flock: return "flock"; case SYS_fcntl: return "fcntl"; case SYS_lseek: return "lseek"; case SYS_mkdir: return "mkdir"; case SYS_rmdir: return "rmdir";
  case SYS_fallocate: return "fallocate"; case SYS_msync: return "msync"; case SYS_chmod: return "chmod"; case SYS_fchmod: return "fchmod"; case SYS_read: return "read";
  default: return 0;
  }
}
static bool is_write(long nr) { return nr == SYS_write || nr == SYS_pwrite64; }
// calls whose failure is meaningful to inject
static bool can_fail(long nr) {
  switch (nr) {
  case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_open: case SYS_openat: case SYS_creat: case SYS_rename: case SYS_renameat: case SYS_renameat2:
  case SYS_link: case SYS_linkat: case SYS_close: case SYS_ftruncate: case SYS_fsync: case SYS_fdatasync: case SYS_copy_file_range: case SYS_sendfile: return true;
  default: return false;
  }
}
static void session(const std::string &path, const std::vector<Record> &q, int how) {
  sdf::OutDataFile f(path, sdf::DataFile::SDF_PARANOID);
  for (size_t k = 0; k < q.size(); k++) dump(f, q[k]);
  if (how) f.close();
}
static Outcome run(const std::string &path, const std::vector<Record> &q, int how, const Plan &plan) {
  Outcome o = {false, false, false, false, 0, 0, 0, 0, "", ""};
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(99); }
  if (!pid) {
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    close(null);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(97);
    raise(SIGSTOP);
    session(path, q, how);
    syscall(SYS_getppid);  // tells the monitor that the session is over
    _exit(42);
  }
  int st;
  waitpid(pid, &st, 0);
  if (!WIFSTOPPED(st)) { fprintf(stderr, "cannot trace a child (status %d)\n", st); _exit(99); }
  ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
  bool entry = true, over = false;
  long n = 0, nw = 0, nf = 0;  // calls, writes, calls that can fail
  int sig = 0;
  bool kill_at_exit = false, set_ret = false;
  int err = 0;
  for (long steps = 0;; steps++) {
    if (steps > 2000000) { o.hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    if (ptrace(PTRACE_SYSCALL, pid, 0, sig)) { perror("ptrace"); _exit(99); }
    sig = 0;
    if (waitpid(pid, &st, 0) < 0) { perror("waitpid"); _exit(99); }
    if (WIFEXITED(st)) { o.finished = WEXITSTATUS(st) == 42; o.aborted = !o.finished; break; }
    if (WIFSIGNALED(st)) { o.aborted = WTERMSIG(st) == SIGABRT; break; }
    if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); continue; }
    struct user_regs_struct r;
    ptrace(PTRACE_GETREGS, pid, 0, &r);
    if (entry) {
      entry = false;
      long nr = r.orig_rax;
      if (nr == SYS_getppid) over = true;
      const char *name = call_name(nr);
      if (name && !over && !(is_write(nr) && (r.rdi == 1 || r.rdi == 2))) {
        o.last = name;
        if (o.trace.size() < 600) { o.trace += name; o.trace += ' '; }
        bool w = is_write(nr) && r.rdx > 1, f = can_fail(nr);
        if (plan.kind == Plan::KILL_BEFORE && n == plan.at) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.killed = true; break; }
        if (plan.kind == Plan::KILL_AFTER && n == plan.at) kill_at_exit = true;
        if ((plan.kind == Plan::CUT_KILL || plan.kind == Plan::SHORT) && w && nw == plan.at) {
          r.rdx = 1 + (plan.at * 7919 + r.rdx / 2) % (r.rdx - 1);
          ptrace(PTRACE_SETREGS, pid, 0, &r);
          if (plan.kind == Plan::CUT_KILL) kill_at_exit = true;
        }
        if (f && ((plan.kind == Plan::FAIL_ONCE && nf == plan.at) || (plan.kind == Plan::FAIL_ON && nf >= plan.at))) {
          if (nr != SYS_close) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, pid, 0, &r); }  // a failing close still closes
          set_ret = true;
          err = plan.err;
        }
        n++;
        nw += w;
        nf += f;
      }
    } else {
      entry = true;
      if (kill_at_exit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.killed = true; break; }
      if (set_ret) { r.rax = -err; ptrace(PTRACE_SETREGS, pid, 0, &r); set_ret = false; }
    }
  }
  o.status = st;
  o.calls = n;
  o.writes = nw;
  o.fallible = nf;
  mon::shared()->aborts++;
  return o;
}
static std::vector<std::string> listing(const std::string &dir) {
  std::vector<std::string> v;
  DIR *d = opendir(dir.c_str());
  while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
  closedir(d);
  std::sort(v.begin(), v.end());
  return v;
}
static void wipe(const std::string &dir) {
  std::vector<std::string> v = listing(dir);
  for (size_t i = 0; i < v.size(); i++) unlink((dir + "/" + v[i]).c_str());
}
FAMILY(P22, crash, 96, 4000) {
  std::string dir = mon::scratch_dir() + "/d";
  mkdir(dir.c_str(), 0700);
  wipe(dir);
  std::string path = dir + "/data";
  std::vector<Record> before, q;
  bool had = c.r.chance(0.7), stale = c.r.chance(0.3);
  for (long n = c.r.in(0, 3); n-- > 0;) before.push_back(any_record(c.r, false));
  for (long n = c.r.in(0, 3); n-- > 0;) q.push_back(any_record(c.r, c.r.chance(0.2)));
  int how = c.r.below(2);
  c.what << "careful session over " << (had ? "an old file" : "nothing") << (stale ? " and a stale temporary" : "") << (how ? ", closed" : "");
  for (size_t k = 0; k < q.size(); k++) c.what << ", " << sdfm::show(q[k]);
  c.ready();
  std::string old, leftover = "remains of an earlier crash";
  if (had) { { sdf::OutDataFile f(path, flag(c.r.below(3))); for (size_t k = 0; k < before.size(); k++) dump(f, before[k]); } old = slurp(path); }
  // what the complete new file holds: written here, without disturbance, in another directory
  std::string ref = mon::scratch_dir() + "/ref";
  unlink(ref.c_str());
  { sdf::OutDataFile f(ref, sdf::DataFile::SDF_OVERWRITE); for (size_t k = 0; k < q.size(); k++) dump(f, q[k]); }
  std::string want = slurp(ref);
  std::ostringstream base;
  base << c.what.str();
  static const int errs[] = {ENOSPC, EIO, EDQUOT};
  long calls = 0, writes = 0, fallible = 0;
  for (int kind = Plan::NONE; kind <= Plan::FAIL_ON; kind++) {
    // as many points as the undisturbed session has
    long bound = kind == Plan::NONE ? 1 : kind <= Plan::KILL_AFTER ? calls : kind <= Plan::SHORT ? writes : fallible;
    for (long at = 0; at < bound; at++) {
      Plan p;
      p.kind = (Plan::Kind)kind;
      p.at = at;
      p.err = errs[c.r.below(3)];
      wipe(dir);
      if (had) spit(path, old);
      if (stale) spit(path + ".tmp", leftover);
      c.what.str("");
      c.what << base.str() << "; " << p.text();
      c.ready();
      Outcome o = run(path, q, how, p);
      if (kind == Plan::NONE) { calls = o.calls; writes = o.writes; fallible = o.fallible; }
      c.saw(c.what.str());
      mon::shared()->events += o.calls;
      CHECK_MSG(c, !o.hung, "crash:hung", p.text());
      bool there = exists(path);
      std::string now = there ? slurp(path) : "";
      bool is_old = there == had && now == old, is_new = there && now == want;
      CHECK_MSG(c, is_old || is_new, "crash:damaged",
                p.text() << " at " << o.last << " (" << o.trace << "): the file " << (there ? "has " : "is gone, ") << now.size() << " bytes, old " << (had ? (long)old.size() : -1L) << ", new " << want.size());
      if (o.finished) {
        CHECK_MSG(c, is_new, "crash:reported done", p.text() << " at " << o.last << ": " << now.size() << " of " << want.size() << " bytes");
        CHECK_MSG(c, !exists(path + ".tmp"), "crash:temporary left", p.text());
        std::vector<std::string> l = listing(dir);
        CHECK_MSG(c, l.size() == 1, "crash:other files left", p.text() << ": " << l.size() << " files, " << ref::show(l));
      } else if (kind == Plan::NONE || kind == Plan::SHORT) {
        CHECK_MSG(c, false, "crash:undisturbed session failed", p.text() << " status " << o.status << " at " << o.last);
      } else {
        CHECK_MSG(c, o.killed || o.aborted, "crash:odd end", p.text() << " status " << o.status);
      }
      if (o.killed || o.aborted) {  // the next session is not disturbed by the remains
        if (c.r.chance(0.2)) {
          { sdf::OutDataFile f(path, sdf::DataFile::SDF_PARANOID); for (size_t k = 0; k < q.size(); k++) dump(f, q[k]); }
          CHECK_MSG(c, slurp(path) == want && !exists(path + ".tmp"), "crash:next session", p.text());
        }
      }
    }
  }
  wipe(dir);
}
// While the session lasts others see the old file only
FAMILY(P22, visible, 4000, 100000) {
  std::string path = mon::scratch_dir() + "/v";
  unlink(path.c_str());
  bool had = c.r.chance(0.7);
  std::string old;
  if (had) { { sdf::OutDataFile f(path, flag(c.r.below(3))); for (long n = c.r.in(0, 3); n-- > 0;) dump(f, any_record(c.r, false)); } old = slurp(path); }
  std::vector<Record> q;
  for (long n = c.r.in(0, 4); n-- > 0;) q.push_back(any_record(c.r, false));
  c.what << "visible " << (had ? "over old" : "new");
  for (size_t k = 0; k < q.size(); k++) c.what << ", " << sdfm::show(q[k]);
  c.ready();
  c.saw_what();
  {
    sdf::OutDataFile f(path, sdf::DataFile::SDF_PARANOID);
    for (size_t k = 0;; k++) {
      CHECK_MSG(c, exists(path) == had && slurp(path) == old, "visible:changed before the end", "after " << k << " records");
      if (k == q.size()) break;
      dump(f, q[k]);
    }
    if (c.r.chance(0.5)) f.close();
  }
  CHECK_MSG(c, exists(path) && !exists(path + ".tmp"), "visible:end", "");
  sdf::InDataFile f(path);
  for (size_t k = 0; k < q.size(); k++) { std::string bad = load(f, q[k], q[k].name, 0); CHECK_MSG(c, bad.empty(), "visible:contents", "record " << k << ": " << bad); }
}
MON_MAIN
