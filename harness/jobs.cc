// P25: parameter grids, their division into jobs and their data sets.
#include "sdfmodel.h"
#include <dirent.h>
#include <map>
#include <set>
#include <tensor/jobs.h>
using namespace sdfm;

struct Var { std::string name, text; double lo, hi; long n; };
struct Grid {
  std::vector<Var> v;
  std::vector<std::string> args;  // complete command line
  long jobs() const { long n = 1; for (size_t i = 0; i < v.size(); i++) n *= v[i].n; return n; }
};
static std::string number(mon::Rng &r, double &x) {
  char b[64];
  switch (r.below(5)) {
  case 0: x = r.in(-10, 10); snprintf(b, sizeof b, "%g", x); break;
  case 1: x = r.in(-1000, 1000) / 8.0; snprintf(b, sizeof b, "%.4f", x); break;
  case 2: x = r.normal() * std::pow(10.0, r.in(-6, 6)); snprintf(b, sizeof b, "%.17g", x); break;
  case 3: x = r.in(-50, 50) * 1e-3; snprintf(b, sizeof b, "%.3e", x); break;
  default: x = r.in(0, 3); snprintf(b, sizeof b, r.chance(0.5) ? "%g" : "%g.", x); break;
  }
  x = strtod(b, 0);
  return b;
}
static std::string sep(mon::Rng &r, bool file) {
  static const char *s[] = {",", ";", ", ", " , ", ";;"}, *f[] = {" ", "\t", "  ", " \t ", ","};
  return file ? f[r.below(5)] : r.chance(0.6) ? "," : s[r.below(5)];
}
static Grid grid(Case &c, long most, const std::string &file) {
  mon::Rng &r = c.r;
  Grid g;
  static const char *names[] = {"a", "b", "J", "U", "x1", "x", "theta", "long_variable_name", "g.1", "--name", "b2", "b3", "V", "W", "Delta", "k", "q", "_"};
  std::vector<std::string> left(names, names + 18);
  bool many = r.chance(0.04);
  long count = many ? r.in(6, 18) : r.chance(0.05) ? 0 : r.in(1, 5), total = 1;
  for (long i = 0; i < count; i++) {
    Var v;
    size_t k = r.below(left.size());
    v.name = left[k];
    left.erase(left.begin() + k);
    bool infile = false;
    std::string a = number(r, v.lo), b;
    int form = r.below(4);
    if (form >= 2) b = number(r, v.hi); else v.hi = v.lo;
    v.n = form <= 1 ? 1 : form == 2 ? 10 : r.chance(0.15) ? 1 : r.chance(0.1) ? r.in(6, 40) : r.in(2, 5);
    if (form == 3 && r.chance(0.05)) { b = a; v.hi = v.lo; }
    // distinct values or all the same
    if (form >= 2 && v.lo != v.hi && std::fabs(v.hi - v.lo) < 1e-6 * (std::fabs(v.hi) + std::fabs(v.lo))) { b = a; v.hi = v.lo; }
    if (many && total * v.n > most) { v.n = 1; b = a; v.hi = v.lo; if (form == 2) form = 1; }
    if (total * v.n > most) break;
    total *= v.n;
    infile = file.size() && r.chance(0.7);
    v.text = v.name + sep(r, infile) + a;
    if (form >= 2) v.text += sep(r, infile) + b;
    if (form == 3) v.text += sep(r, infile) + std::to_string(v.n);
    if (r.chance(0.1)) v.text += infile ? " " : ",";
    if (r.chance(0.1)) v.text = (infile ? "  " : ",") + v.text;
    v.text = (infile ? "F" : "C") + v.text;
    g.v.push_back(v);
  }
  g.args.push_back("program");
  std::string text;
  bool any = false;
  for (size_t i = 0; i < g.v.size(); i++)
    if (g.v[i].text[0] == 'F') {
      if (r.chance(0.15)) text += r.chance(0.5) ? "\n" : "  \t\n";
      text += g.v[i].text.substr(1);
      any = true;
      text += "\n";
    }
  if (any) {
    if (r.chance(0.3)) text.erase(text.size() - 1);  // no newline at the end
    spit(file, text);
  }
  std::vector<std::string> opts;
  for (size_t i = 0; i < g.v.size(); i++)
    if (g.v[i].text[0] == 'C') { g.args.push_back("--variable"); g.args.push_back(g.v[i].text.substr(1)); }
  if (any) {
    size_t at = r.chance(0.5) ? 1 : g.args.size();
    g.args.insert(g.args.begin() + at, "--job");
    g.args.insert(g.args.begin() + at + 1, file);
  }
  for (size_t i = 0; i < g.v.size(); i++) {
    std::string t = g.v[i].text;
    for (size_t k = 0; k < t.size(); k++) if (t[k] == '\t') t[k] = '~';
    c.what << (i ? " | " : "grid ") << t;
  }
  return g;
}
struct Args {
  std::vector<std::string> s;
  std::vector<const char *> p;
  explicit Args(const std::vector<std::string> &v) : s(v) { for (size_t i = 0; i < s.size(); i++) p.push_back(s[i].c_str()); }
  Args &operator()(const std::string &a) { s.push_back(a); p.clear(); for (size_t i = 0; i < s.size(); i++) p.push_back(s[i].c_str()); return *this; }
  Args &operator()(const char *o, long n) { (*this)(std::string(o)); return (*this)(std::to_string(n)); }
  int argc() const { return s.size(); }
  const char **argv() { return p.data(); }
};
static double value_at(const Var &v, long k) {
  return v.n == 1 ? v.lo : (double)((long double)v.lo + ((long double)v.hi - v.lo) * k / (v.n - 1));
}
// the step whose value this is, or -1
static long step_of(const Var &v, double x) {
  double lim = 1e-13 * (std::fabs(v.lo) + std::fabs(v.hi)) + 1e-300;
  for (long k = 0; k < v.n; k++) if (std::fabs(x - value_at(v, k)) <= lim) return k;
  return -1;
}
typedef std::vector<long> Steps;
static Steps steps(Case &c, const Grid &g, const jobs::Job &j, const std::string &key) {
  Steps s;
  for (size_t i = 0; i < g.v.size(); i++) {
    double x = j.get_value(g.v[i].name);
    CHECK_MSG(c, ref::same(j.get_value_with_default(g.v[i].name, -123.25), x), key + ":with default", g.v[i].name);
    long k = step_of(g.v[i], x);
    CHECK_MSG(c, k >= 0, key + ":value", g.v[i].name << " = " << x << " is no value of " << g.v[i].lo << ".." << g.v[i].hi << " in " << g.v[i].n);
    s.push_back(k);
  }
  CHECK_MSG(c, j.get_value_with_default("no such variable", -123.25) == -123.25, key + ":default", "");
  return s;
}
static std::vector<Steps> full(Case &c, const Grid &g) {
  Args a(g.args);
  std::vector<Steps> all;
  jobs::Job j(a.argc(), a.argv());
  CHECK_MSG(c, j.number_of_jobs() == g.jobs(), "grid:number of jobs", j.number_of_jobs() << " expected " << g.jobs());
  for (; j.to_do(); ++j) {
    CHECK_MSG(c, (long)all.size() < g.jobs(), "grid:too many", "");
    CHECK_MSG(c, j.current_job() == (long)all.size(), "grid:numbering", j.current_job() << " after " << all.size() << " jobs");
    all.push_back(steps(c, g, j, "grid"));
  }
  CHECK_MSG(c, (long)all.size() == g.jobs(), "grid:jobs run", all.size() << " of " << g.jobs());
  return all;
}
FAMILY(P25, grid, 4000, 300000) {
  std::string file = mon::scratch_dir() + "/jobfile";
  Grid g = grid(c, 2000, file);
  c.ready();
  c.saw_what();
  std::vector<Steps> all = full(c, g);
  std::map<Steps, long> seen;
  for (size_t i = 0; i < all.size(); i++) seen[all[i]]++;
  long each = 1, kinds = 1;
  for (size_t i = 0; i < g.v.size(); i++) { if (g.v[i].lo == g.v[i].hi) each *= g.v[i].n; else kinds *= g.v[i].n; }
  CHECK_MSG(c, (long)seen.size() == kinds, "grid:combinations", seen.size() << " of " << kinds);
  for (std::map<Steps, long>::iterator it = seen.begin(); it != seen.end(); ++it)
    CHECK_MSG(c, it->second == each, "grid:repeated", it->second << " times " << ref::show(it->first) << " expected " << each);
  // reproducible from the number alone
  for (int t = 0; t < 3; t++) {
    long k = c.r.below(g.jobs());
    Args a(g.args);
    a("--this-job", k);
    jobs::Job j(a.argc(), a.argv());
    CHECK_MSG(c, j.to_do() && j.current_job() == k, "this-job:number", j.current_job() << " asked for " << k);
    CHECK_MSG(c, steps(c, g, j, "this-job") == all[k], "this-job:values", "of job " << k);
    // a record of its variables
    std::string path = mon::scratch_dir() + "/vars";
    { sdf::OutDataFile f(path, sdf::DataFile::SDF_OVERWRITE); j.dump_variables(f); }
    {
      sdf::InDataFile f(path);
      std::map<std::string, double> got;
      for (size_t i = 0; i < g.v.size(); i++) {  // in the order of the job: file and command line variables may interleave
        (void)i;
      }
      std::vector<size_t> order;
      for (size_t pass = 0; pass < 2; pass++) for (size_t i = 0; i < g.v.size(); i++) {
        bool filefirst = g.args.size() > 1 && g.args[1] == "--job";
        if ((g.v[i].text[0] == 'F') == (filefirst == (pass == 0))) order.push_back(i);
      }
      for (size_t i = 0; i < order.size(); i++) {
        double x;
        f.load(&x, g.v[order[i]].name);
        CHECK_MSG(c, ref::same(x, j.get_value(g.v[order[i]].name)), "dump_variables", g.v[order[i]].name << " = " << x);
      }
    }
    ++j;
    CHECK_MSG(c, !j.to_do(), "this-job:more than one", "after job " << k);
  }
  // a number the grid does not have
  {
    long k = g.jobs() + (c.r.chance(0.6) ? 0 : c.r.chance(0.5) ? c.r.in(1, 5) : (long)c.r.below(1L << c.r.in(3, 40)));
    Args a(g.args);
    a("--this-job", k);
    jobs::Job j(a.argc(), a.argv());
    CHECK_MSG(c, !j.to_do(), "this-job:beyond", "job " << k << " of " << g.jobs() << " is run as number " << j.current_job());
  }
}
static void run_part(Case &c, const Grid &g, Args &a, const std::vector<Steps> &all, std::vector<long> &done, const std::string &key) {
  long before = -1, count = 0;
  for (jobs::Job j(a.argc(), a.argv()); j.to_do(); ++j) {
    long k = j.current_job();
    CHECK_MSG(c, k >= 0 && k < (long)all.size() && k > before && ++count <= (long)all.size(), key + ":job number", k << " after " << before);
    CHECK_MSG(c, steps(c, g, j, key) == all[k], key + ":values", "of job " << k);
    done[k]++;
    before = k;
  }
}
static void exactly_once(Case &c, const std::vector<long> &done, const std::string &key) {
  for (size_t k = 0; k < done.size(); k++) CHECK_MSG(c, done[k] == 1, key + (done[k] ? ":repeated" : ":left out"), "job " << k << " of " << done.size() << " ran " << done[k] << " times");
}
FAMILY(P25, blocks, 2500, 250000) {
  Grid g = grid(c, 150, mon::scratch_dir() + "/jobfile");
  long N = g.jobs(), B = c.r.chance(0.2) ? c.r.in(1, 3) : c.r.chance(0.3) ? c.r.in(N, 2 * N + 2) : c.r.in(1, N + 3);
  bool first = c.r.chance(0.5);
  c.what << " in " << B << " blocks";
  c.ready();
  c.saw_what();
  std::vector<Steps> all = full(c, g);
  std::vector<long> done(N);
  for (long b = 0; b < B; b++) {
    Args a(g.args);
    if (first) a("--job-blocks", B);
    if (b || c.r.chance(0.5)) a("--this-job", b);  // 0 by default
    if (!first) a("--job-blocks", B);
    run_part(c, g, a, all, done, "blocks");
  }
  if (c.r.chance(0.2)) {  // a block there is not
    Args a(g.args);
    a("--job-blocks", B)("--this-job", B + (c.r.chance(0.5) ? 0 : c.r.in(1, 20)));
    run_part(c, g, a, all, done, "blocks");
  }
  exactly_once(c, done, "blocks");
}
// Far more blocks than jobs
FAMILY(P25, manyblocks, 400, 40000) {
  Grid g = grid(c, 40, mon::scratch_dir() + "/jobfile");
  long N = g.jobs(), top = 9223372036854775807L, B;
  switch (c.r.below(4)) {
  case 0: B = top - c.r.in(0, 3 * N); break;
  case 1: B = (1L << c.r.in(20, 62)) + c.r.in(-2, 2); break;
  case 2: B = top / c.r.in(1, 70) + c.r.in(-2, 0); break;
  default: B = N + c.r.in(1, 1000000); break;
  }
  c.what << " in " << B << " blocks";
  c.ready();
  c.saw_what();
  std::vector<Steps> all = full(c, g);
  std::vector<long> done(N);
  std::set<long> which;
  for (long b = 0; b < N + 3; b++) which.insert(b);
  for (int i = 0; i < 4; i++) { which.insert(N + (long)c.r.below(B - N)); which.insert(B - 1 - c.r.in(0, 3)); }
  for (long b : which) {
    if (b < 0 || b >= B) continue;
    Args a(g.args);
    a("--job-blocks", B);
    if (b || c.r.chance(0.5)) a("--this-job", b);
    run_part(c, g, a, all, done, "manyblocks");
  }
  exactly_once(c, done, "manyblocks");
}
// Grids of up to 2^40 jobs: too many to run, but blocks of them can be, and they have to meet
static std::vector<std::string> files_in(const std::string &dir) {
  std::vector<std::string> v;
  DIR *d = opendir(dir.c_str());
  if (!d) return v;
  while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
  closedir(d);
  std::sort(v.begin(), v.end());
  return v;
}
FAMILY(P25, huge, 150, 20000) {
  mon::Rng &r = c.r;
  std::vector<long> n;
  std::vector<std::string> args{"program"};
  long N = 1, most = 1L << r.in(20, 40);
  c.what << "huge";
  for (int i = 0; i < 6; i++) {
    long k = r.chance(0.2) ? 1 : r.chance(0.3) ? 1L << r.in(1, 16) : r.chance(0.7) ? r.in(2, 200) : r.in(2, 70000);
    if (N * k > most) { k = std::min(most / N, 70000L); }
    if (k < 2 && !r.chance(0.2)) continue;
    N *= k;
    std::ostringstream o;
    o << "v" << n.size() << ",0," << (k > 1 ? k - 1 : 0) << "," << k;
    c.what << ' ' << o.str();
    n.push_back(k);
    args.push_back("--variable");
    args.push_back(o.str());
  }
  long B = r.chance(0.4) ? std::min(N, 2147483647L) : N;
  if (N / B < 700 && r.chance(0.5)) B = std::max(1L, std::min(B, N / r.in(1, 700)));
  long b = r.chance(0.2) ? 0 : r.chance(0.3) ? B - 1 - (long)r.below(std::min(B, 3L)) : (long)r.below(B);
  c.what << " block " << b << " of " << B;
  c.ready();
  c.saw_what();
  Args all(args);
  jobs::Job whole(all.argc(), all.argv());
  CHECK_MSG(c, whole.number_of_jobs() == N, "huge:number of jobs", whole.number_of_jobs() << " expected " << N);
  CHECK_MSG(c, whole.to_do() && whole.current_job() == 0, "huge:first job", whole.current_job());
  auto values = [&](const jobs::Job &j) {
    Steps s;
    for (size_t i = 0; i < n.size(); i++) {
      double x = j.get_value("v" + std::to_string(i)), k = std::floor(x + 0.5);
      CHECK_MSG(c, k >= 0 && k < n[i] && std::fabs(x - k) <= 1e-12 * n[i], "huge:value", "v" << i << " = " << x);
      s.push_back((long)k);
    }
    return s;
  };
  long next = -1;
  std::set<Steps> seen;
  for (long q = b; q < b + 2 && q < B; q++) {
    Args a(args);
    a("--job-blocks", B)("--this-job", q);
    jobs::Job j(a.argc(), a.argv());
    long ran = 0;
    for (; j.to_do() && ran < 6000; ++j, ran++) {
      if (next < 0) { next = j.current_job(); if (b == 0) CHECK_MSG(c, next == 0, "huge:first block", "begins with " << next); }
      CHECK_MSG(c, j.current_job() == next, "huge:consecutive", j.current_job() << " expected " << next);
      CHECK_MSG(c, next < N, "huge:beyond", next);
      Steps s = values(j);
      CHECK_MSG(c, seen.insert(s).second, "huge:repeated", ref::show(s) << " by job " << next);
      if (ran < 2 || r.chance(0.001)) {
        Args one(args);
        one("--this-job", next);
        jobs::Job i(one.argc(), one.argv());
        CHECK_MSG(c, i.to_do() && i.current_job() == next && values(i) == s, "huge:this-job", "runs job " << i.current_job() << " instead of job " << next << " of its block");
        ++i;
        CHECK_MSG(c, !i.to_do(), "huge:this-job twice", "after job " << next);
        Args part(args);
        long last = r.chance(0.2) ? N - 1 : std::min(N - 1, next + r.in(0, 5));
        part("--first-job", next);
        if (last < N - 1 || r.chance(0.5)) part("--last-job", last);
        jobs::Job k(part.argc(), part.argv());
        CHECK_MSG(c, k.to_do() && k.current_job() == next && values(k) == s, "huge:first-job", "begins with job " << k.current_job() << " instead of job " << next);
        for (long q = next; q <= std::min(last, next + 6); ++k, q++)
          CHECK_MSG(c, k.to_do() && k.current_job() == q, "huge:range", "job " << k.current_job() << " instead of job " << q << " up to " << last);
        if (last < next + 6) CHECK_MSG(c, !k.to_do(), "huge:last-job", "job " << k.current_job() << " after the last one, " << last);
      }
      if (next > 4294967295L && (next & 0xffffffffL) < 2147483648L && ran < 3) {
        // the record of a job whose number has the same low bits is another record
        long low = next & 0xffffffffL;
        std::string dir = mon::scratch_dir() + "/huge";
        mkdir(dir.c_str(), 0777);
        std::vector<std::string> old = files_in(dir);
        for (size_t i = 0; i < old.size(); i++) unlink((dir + "/" + old[i]).c_str());
        Args one(args);
        one("--this-job", low);
        jobs::Job i(one.argc(), one.argv());
        { jobs::Job::dataset s = i.open_dataset(dir); i.dump_variables(*s); }
        c.check(i.dataset_record_exists(dir), "huge:record missing");
        CHECK_MSG(c, !j.dataset_record_exists(dir), "huge:record of another job", "job " << next << " takes the record of job " << low << " for its own");
        { jobs::Job::dataset s = j.open_dataset(dir); c.check(s.operator->() != 0, "huge:record not opened"); j.dump_variables(*s); }
        CHECK_MSG(c, files_in(dir).size() == 2, "huge:records", files_in(dir).size());
      }
      next++;
    }
    CHECK_MSG(c, ran < 6000 || !j.to_do(), "huge:block size", "more than " << ran << " jobs in block " << q << " of " << B);
    if (q == B - 1) CHECK_MSG(c, next == N || (next < 0), "huge:last block", "ends before " << next << " of " << N);
  }
}
FAMILY(P25, ranges, 3000, 250000) {
  Grid g = grid(c, 150, mon::scratch_dir() + "/jobfile");
  long N = g.jobs();
  std::set<long> cuts;
  cuts.insert(0);
  for (long n = c.r.in(0, 5); n-- > 0;) cuts.insert(c.r.below(N));
  std::vector<long> from(cuts.begin(), cuts.end());
  int end = c.r.below(3);
  c.what << " from " << ref::show(from) << (end == 0 ? " open" : end == 1 ? " exceeding" : " exact");
  c.ready();
  c.saw_what();
  std::vector<Steps> all = full(c, g);
  std::vector<long> done(N);
  for (size_t i = 0; i < from.size(); i++) {
    Args a(g.args);
    a("--first-job", from[i]);
    if (i + 1 < from.size()) a("--last-job", from[i + 1] - 1);
    else if (end == 1) a("--last-job", N - 1 + c.r.in(1, 50));
    else if (end == 2) a("--last-job", N - 1);
    run_part(c, g, a, all, done, "ranges");
  }
  exactly_once(c, done, "ranges");
}
FAMILY(P25, print, 160, 4000) {
  Grid g = grid(c, 100000, mon::scratch_dir() + "/jobfile");
  bool help = c.r.chance(0.15);
  c.what << (help ? " --help" : " --print-jobs");
  c.ready();
  c.saw_what();
  Args a(g.args);
  a(help ? "--help" : "--print-jobs");
  mon::ChildEnd e = mon::run_child([&]() { jobs::Job j(a.argc(), a.argv()); });
  CHECK_MSG(c, !e.returned && !e.signaled && e.code == 0 && !e.sanitizer, "print:end", e.text());
  if (!help) CHECK_MSG(c, atol(e.err.c_str()) == g.jobs() && e.err == std::to_string(g.jobs()), "print:number", e.err << " expected " << g.jobs());
}
// Command lines and files that say something impossible
FAMILY(P25, refused, 320, 8000) {
  std::string file = mon::scratch_dir() + "/jobfile";
  Grid g = grid(c, 100, file);
  long N = g.jobs();
  Args a(g.args);
  int kind = c.r.below(17);
  static const char *bad[] = {"q", "q,1,2,3,4", "q,1,2,0", "q,1,2,-3", "", ",,", "q 1 2 3 4 5"};
  switch (kind) {
  case 0: a("--first-job", -c.r.in(1, 5)); break;
  case 1: a("--first-job", N + c.r.in(0, 3)); break;
  case 2: a("--first-job", N - 1)("--last-job", N - 2 - c.r.in(0, 2)); if (N == 1) return; break;
  case 3: a("--job-blocks", -c.r.in(0, 3)); break;
  case 4: a("--job-blocks", 2)("--first-job", 0); break;
  case 5: a("--first-job", 0)("--last-job", 0)("--job-blocks", 2); break;
  case 6: { static const char *o[] = {"--job", "--this-job", "--job-blocks", "--first-job", "--variable"}; a(o[c.r.below(5)]); break; }
  case 7: a("--this-job", 0)("--first-job", 0); break;
  case 8: a("--last-job", 0); break;
  case 9: case 10: a("--variable")(bad[c.r.below(7)]); break;
  case 11: case 12: case 13: { std::string t = "w 1 2 3\n"; long at = c.r.in(0, 2); for (long i = 0; i < 3; i++) t += i == at ? std::string(bad[c.r.pick(std::vector<int>{0, 1, 2, 3, 6})]) + "\n" : "w" + std::to_string(i) + " 1\n"; spit(file, t); a("--job")(file); break; }
  case 14: a("--job")(mon::scratch_dir() + "/no such file"); break;
  case 15: a("--first-job", 0)("--last-job"); break;
  default: break;
  }
  c.what << " refused " << kind;
  for (size_t i = g.args.size(); i < a.s.size(); i++) c.what << ' ' << a.s[i];
  c.ready();
  c.saw_what();
  if (kind == 16) mon::expect_abort(c, "refused:unknown variable", [&]() { jobs::Job j(a.argc(), a.argv()); volatile double x = j.get_value("no such variable"); (void)x; });
  else mon::expect_abort(c, "refused", [&]() { jobs::Job j(a.argc(), a.argv()); });
}
FAMILY(P25, dataset, 1500, 60000) {
  std::string dir = mon::scratch_dir() + "/set";
  std::vector<std::string> old = files_in(dir);
  for (size_t i = 0; i < old.size(); i++) unlink((dir + "/" + old[i]).c_str());
  rmdir(dir.c_str());
  unlink(dir.c_str());
  Grid g = grid(c, 60, mon::scratch_dir() + "/jobfile");
  long N = g.jobs();
  std::map<long, double> made;
  std::map<long, std::string> file_of;
  if (c.r.chance(0.2)) mkdir(dir.c_str(), 0777);
  c.what << " data set";
  c.ready();
  c.saw_what();
  for (int op = 0; op < 12; op++) {
    long k = c.r.below(N);
    Args a(g.args);
    a("--this-job", k);
    jobs::Job j(a.argc(), a.argv());
    CHECK_MSG(c, j.dataset_record_exists(dir) == (made.count(k) > 0), "dataset:exists", "job " << k << (made.count(k) ? " made" : " not made"));
    if (c.r.chance(0.7)) {
      std::vector<std::string> before = files_in(dir);
      double mark = c.r.normal();
      {
        jobs::Job::dataset s = j.open_dataset(dir);
        bool got = s.operator->() != 0;
        CHECK_MSG(c, got == !made.count(k), "dataset:created twice", "job " << k << (got ? " opened again" : " not opened"));
        if (got) {
          j.dump_variables(*s);
          s->dump(mark, "mark");
          if (c.r.chance(0.3)) { jobs::Job::dataset other = s; jobs::Job::dataset third(0); third = other; third = third; third->dump(k + 0.5, "copy"); }
          if (c.r.chance(0.3)) s->close();
          made[k] = mark;
        }
      }
      CHECK_MSG(c, j.dataset_record_exists(dir), "dataset:not reported", "job " << k);
      std::vector<std::string> after = files_in(dir), fresh;
      std::set_difference(after.begin(), after.end(), before.begin(), before.end(), std::back_inserter(fresh));
      CHECK_MSG(c, after.size() == made.size(), "dataset:files", after.size() << " files for " << made.size() << " records " << ref::show(after));
      if (fresh.size() == 1) file_of[k] = dir + "/" + fresh[0];
    }
  }
  CHECK_MSG(c, file_of.size() == made.size(), "dataset:records", file_of.size() << " of " << made.size());
  for (std::map<long, double>::iterator it = made.begin(); it != made.end(); ++it) {
    Args a(g.args);
    a("--this-job", it->first);
    jobs::Job j(a.argc(), a.argv());
    sdf::InDataFile f(file_of[it->first]);
    for (size_t i = 0; i < g.v.size(); i++) {
      double x;
      f.load(&x, "");
    }
    double x;
    f.load(&x, "mark");
    CHECK_MSG(c, ref::same(x, it->second), "dataset:contents", "of job " << it->first);
  }
  if (c.r.chance(0.03)) {
    std::string plain = mon::scratch_dir() + "/plain";
    spit(plain, "x");
    Args a(g.args);
    jobs::Job j(a.argc(), a.argv());
    mon::expect_abort(c, "dataset:on a file", [&]() { j.open_dataset(plain); });
    CHECK_MSG(c, slurp(plain) == "x", "dataset:changed a file", "");
  }
}
MON_MAIN
