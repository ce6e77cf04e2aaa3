// P29: text representation. P30: flags, clock, file helpers and the abort handler.
#include "ref.h"
#include <iomanip>
#include <array>
#include <map>
#include <iostream>
#include <memory>
#include <set>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <dirent.h>
#include <tensor/flags.h>
#include <tensor/io.h>
#include <tensor/sdf.h>
#include <tensor/tools.h>
using namespace ref;
using tensor::igen;
using tensor::rgen;
using tensor::cgen;

// ---- P29 --------------------------------------------------------------------------------------------------------
static double any_number(mon::Rng &r) {
  static const double s[] = {0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, -1e300, 5e-324, 1.7976931348623157e308, 123456789.0, 1e21, 100000, 1000000, INFINITY, -INFINITY, NAN};
  return r.chance(0.3) ? s[r.below(16)] : r.chance(0.5) ? (double)r.in(-1000, 1000) : r.normal() * std::pow(10.0, r.in(-12, 12));
}
static void set_any(double &x, mon::Rng &r) { x = any_number(r); }
static void set_any(cdouble &x, mon::Rng &r) { double a = any_number(r), b = any_number(r); x = cdouble(a, b); }
static void set_any(long &x, mon::Rng &r) { x = r.chance(0.1) ? (long)r.next() : r.in(-9999, 9999); }
static void set_any(bool &x, mon::Rng &r) { x = r.chance(0.5); }
struct Format { int precision, floating; bool showpos, showpoint, upper, boolalpha; std::string before; };
static Format any_format(mon::Rng &r) {
  Format f;
  f.precision = r.chance(0.3) ? 6 : r.in(0, 18);
  f.floating = r.below(4);
  f.showpos = r.chance(0.15); f.showpoint = r.chance(0.15); f.upper = r.chance(0.15); f.boolalpha = r.chance(0.15);
  f.before = r.chance(0.5) ? "" : r.chance(0.5) ? "x = " : "(";
  return f;
}
static void use_format(std::ostream &s, const Format &f) {
  s << std::setprecision(f.precision);
  if (f.floating == 1) s << std::scientific; else if (f.floating == 2) s << std::fixed;
  if (f.showpos) s << std::showpos;
  if (f.showpoint) s << std::showpoint;
  if (f.upper) s << std::uppercase;
  if (f.boolalpha) s << std::boolalpha;
  s << f.before;
}
// complex numbers are printed as their two parts
template <class T> static void put(std::ostream &o, const T &x) { o << x; }
static void put(std::ostream &o, const cdouble &z) { o << z.real(); o << ' '; o << z.imag(); }
template <class V> static void list(std::ostream &o, const V &v) {
  o << '[';
  for (size_t i = 0; i < v.size(); i++) { if (i) o << ", "; typename V::value_type x = v[i]; put(o, x); }
  o << ']';
}
template <class T> static std::string shorten(const T &s) { return s.size() > 400 ? s.substr(0, 400) + "..." : s; }
// The text of X next to the text the model gives; the stream is left as it was and X too.
template <class X, class M> static void compare_text(Case &c, const char *key, const X &x, M model) {
  Format f = any_format(c.r);
  std::ostringstream got, want;
  use_format(got, f);
  use_format(want, f);
  std::ostream &back = (got << x);
  CHECK_MSG(c, &back == &got, std::string(key) + ":stream", "another stream is returned");
  model(want);
  CHECK_MSG(c, got.str() == want.str(), key, "printed " << shorten(got.str()) << " expected " << shorten(want.str()));
  CHECK_MSG(c, got.good() && got.precision() == want.precision() && got.flags() == want.flags() && got.width() == 0, std::string(key) + ":format", "the format of the stream has changed");
  got << " | " << x << 1.5;
  want << " | ";
  model(want);
  want << 1.5;
  CHECK_MSG(c, got.str() == want.str(), std::string(key) + ":again", "printed " << shorten(got.str()) << " expected " << shorten(want.str()));
}
template <class E> static tensor::Tensor<E> any_tensor(Case &c, int rank, Arr<E> &a) {
  a = Arr<E>(rank ? random_dims(c.r, rank, 0.08, c.r.chance(0.004) ? 5000 : 60) : Dims());
  if (rank && rank < 3 && c.r.chance(0.004)) a = Arr<E>(rank == 1 ? Dims{c.r.in(900, 5000)} : Dims{c.r.in(2, 90), c.r.in(2, 90)});
  for (auto &x : a.v) set_any(x, c.r);
  return rank ? tensor::Tensor<E>(to_tensor(a)) : tensor::Tensor<E>();
}
template <class E> static void text_tensor(Case &c) {
  Arr<E> a;
  int rank = any_rank(c.r, 0, 6);
  tensor::Tensor<E> t = any_tensor<E>(c, rank, a), copy = t;
  c.what << (sizeof(E) > 8 ? "C" : "R") << " text of " << show(a);
  c.ready();
  c.saw_what();
  compare_text(c, "tensor", t, [&](std::ostream &o) { o << '('; list(o, a.d); o << ")/"; list(o, a.v); });
  expect_same(c, t, a, "tensor:changed");
  CHECK_MSG(c, t.ref_count() == 2, "tensor:copied", t.ref_count());
}
FAMILY(P29, tensors, 20000, 400000) { if (c.r.chance(0.5)) text_tensor<double>(c); else text_tensor<cdouble>(c); }
template <class E> static void text_vector(Case &c, const char *name) {
  long n = c.r.chance(0.1) ? 0 : c.r.chance(0.004) ? c.r.in(500, 5000) : c.r.in(1, 20);
  std::vector<E> v;
  tensor::Vector<E> t(n);
  for (long i = 0; i < n; i++) { E x; set_any(x, c.r); v.push_back(x); t.at(i) = x; }
  c.what << name << " vector of " << n;
  c.ready();
  c.saw_what();
  compare_text(c, name, t, [&](std::ostream &o) { list(o, v); });
}
FAMILY(P29, vectors, 12000, 200000) {
  switch (c.r.below(6)) {
  case 0: text_vector<double>(c, "double"); break;
  case 1: text_vector<cdouble>(c, "cdouble"); break;
  case 2: text_vector<long>(c, "long"); break;
  case 3: text_vector<bool>(c, "bool"); break;
  case 4: {
    long n = c.r.in(0, 9);
    Indices i(n);
    std::vector<long> v(n);
    for (long k = 0; k < n; k++) { set_any(v[k], c.r); i.at(k) = v[k]; }
    c.what << "indices " << str(v);
    c.ready();
    c.saw_what();
    compare_text(c, "indices", i, [&](std::ostream &o) { list(o, v); });
    break;
  }
  default: {
    std::vector<long> v(3);
    for (auto &x : v) set_any(x, c.r);
    std::vector<double> w(2);
    for (auto &x : w) x = any_number(c.r);
    c.what << "generators " << str(v) << show(w);
    c.ready();
    c.saw_what();
    compare_text(c, "generator", igen << v[0] << v[1] << v[2], [&](std::ostream &o) { list(o, v); });
    compare_text(c, "generator", rgen << w[0] << w[1], [&](std::ostream &o) { list(o, w); });
  }
  }
}
template <class E> static void matrix_text(std::ostream &o, const Arr<E> &a) {
  o << '[';
  if (a.rank() == 1) { for (long i = 0; i < a.size(); i++) { if (i) o << ", "; put(o, a.v[i]); } }
  else for (long i = 0; i < a.d[0]; i++) {
    if (i) o << "\n ";
    for (long j = 0; j < a.d[1]; j++) { if (j) o << ", "; put(o, a(i, j)); }
  }
  o << ']';
}
template <class E> static void text_matrix(Case &c) {
  typedef tensor::Tensor<E> T;
  mon::Rng &r = c.r;
  if (r.chance(0.15)) {
    Dims d = random_dims(r, r.in(3, 5), 0, 60);
    Arr<E> a(d);
    for (auto &x : a.v) x = E(1);
    T t = to_tensor(a);
    c.what << "matrix form of rank " << d.size();
    c.ready();
    c.saw_what();
    expect_abort(c, "matrix form:rank", [&] { std::cout << tensor::matrix_form(t); });
    return;
  }
  Arr<E> a;
  int rank = r.chance(0.2) ? 1 : 2;
  T t = any_tensor<E>(c, rank, a);
  bool sparse = rank == 2 && r.chance(0.4);
  if (sparse) {
    for (auto &x : a.v) if (!(std::abs(x) < 1e300) || std::abs(x) < 1e-290 || r.chance(0.5)) x = E(0);
    t = to_tensor(a);
  }
  c.what << (sizeof(E) > 8 ? "C" : "R") << (sparse ? "Sparse" : "") << " matrix form of " << show(a);
  c.ready();
  c.saw_what();
  if (sparse) {
    tensor::Sparse<E> s(t);
    compare_text(c, "sparse matrix form", tensor::matrix_form(s), [&](std::ostream &o) { matrix_text(o, a); });
    compare_text(c, "sparse", s, [&](std::ostream &o) { o << '('; list(o, a.d); o << ")/"; list(o, a.v); });
  } else {
    // the form is that of the value when it was made
    auto form = tensor::matrix_form(t);
    if (r.chance(0.5) && t.size()) t.at(0) += E(7);
    compare_text(c, "matrix form", form, [&](std::ostream &o) { matrix_text(o, a); });
  }
}
FAMILY(P29, matrices, 16000, 300000) { if (c.r.chance(0.5)) text_matrix<double>(c); else text_matrix<cdouble>(c); }
// Seventeen digits give back every number
static void read_list(Case &c, std::istream &s, std::vector<double> &v) {
  char ch = 0;
  s >> ch;
  CHECK_MSG(c, ch == '[', "parse", "no list");
  if ((s >> std::ws).peek() == ']') { s >> ch; return; }
  do {
    std::string w;
    int p;
    while ((p = s.peek()) != EOF && p != ',' && p != ']') w += (char)s.get();
    char *end = 0;
    v.push_back(strtod(w.c_str(), &end));
    CHECK_MSG(c, end && !*end && w.size(), "parse", "'" << w << "' is not a number");
    s >> ch;
  } while (ch == ',');
  CHECK_MSG(c, ch == ']', "parse", "unterminated list");
}
FAMILY(P29, parse, 6000, 120000) {
  Arr<double> a;
  int rank = c.r.in(1, 5);
  RTensor t = any_tensor<double>(c, rank, a);
  c.what << "text and back of " << show(a);
  c.ready();
  c.saw_what();
  std::stringstream s;
  s.precision(17);
  s << t;
  std::vector<double> d, v;
  char ch = 0;
  s >> ch;
  CHECK_MSG(c, ch == '(', "parse", "no dimensions");
  read_list(c, s, d);
  s >> ch;
  CHECK_MSG(c, ch == ')', "parse", "dimensions not closed");
  s >> ch;
  CHECK_MSG(c, ch == '/', "parse", "no elements");
  read_list(c, s, v);
  Arr<double> b;
  b.d.assign(d.begin(), d.end());
  b.v = v;
  CHECK_MSG(c, same(a, b), "parse", "read back " << show(b) << " expected " << show(a));
}

FAMILY(P29, numbers, 4000, 80000) {
  int n = c.r.in(1, 6);
  std::vector<cdouble> z(n);
  for (auto &x : z) do set_any(x, c.r); while (!std::isfinite(x.real()) || !std::isfinite(x.imag()) || std::fpclassify(x.real()) == FP_SUBNORMAL || std::fpclassify(x.imag()) == FP_SUBNORMAL);
  c.what << "complex numbers and back " << show(z);
  c.ready();
  c.saw_what();
  std::stringstream s;
  s.precision(17);
  for (auto &x : z) tensor::operator<<(s, x) << (c.r.chance(0.5) ? " " : "\n");
  for (auto &x : z) {
    cdouble y(-1, -1);
    tensor::operator>>(s, y);
    CHECK_MSG(c, s && same(x, y), "complex", "read back " << y.real() << ' ' << y.imag() << " expected " << x.real() << ' ' << x.imag());
  }
}
// ---- P30: flags ---------------------------------------------------------------------------------------------------
FAMILY(P30, flags, 6000, 100000) {
  mon::Rng &r = c.r;
  bool global = r.chance(0.3);
  int steps = r.in(1, 40);
  mon::Rng ops(r.next());
  c.what << (global ? "FLAGS" : "a set of flags") << ", " << steps << " steps " << ops.next();
  c.ready();
  c.saw_what();
  std::vector<std::unique_ptr<tensor::Flags>> pool;
  std::vector<std::map<unsigned, double>> model;
  if (!global) { pool.emplace_back(new tensor::Flags); model.emplace_back(); }
  static std::map<unsigned, double> all;  // what this process did to the global flags
  if (all.empty()) all[tensor::TENSOR_DEBUG_BLOCK_SVD] = 0.0;
  for (int k = 0; k < steps; k++) {
    size_t w = global ? 0 : ops.below(pool.size());
    tensor::Flags &f = global ? tensor::FLAGS : *pool[w];
    std::map<unsigned, double> &m = global ? all : model[w];
    auto some = [&] { auto it = m.begin(); std::advance(it, ops.below(m.size())); return it->first; };
    switch (m.empty() ? 0 : ops.below(6)) {
    case 0: case 1: {
      double v = ops.chance(0.2) ? 0 : ops.normal();
      unsigned key = f.create_key(v);
      CHECK_MSG(c, !m.count(key), "flags:key", "key " << key << " created twice");
      m[key] = v;
      break;
    }
    case 2: case 3: {
      unsigned key = some(), key2 = some();
      double v = ops.normal(), v2 = ops.chance(0.1) ? INFINITY : ops.normal();
      if (global && (key == tensor::TENSOR_DEBUG_BLOCK_SVD || key2 == tensor::TENSOR_DEBUG_BLOCK_SVD)) break;
      tensor::Flags &g = f.set(key, v);
      CHECK_MSG(c, &g == &f, "flags:chain", "set() does not return the flags");
      m[key] = v;
      g.set(key2, v2);
      m[key2] = v2;
      break;
    }
    case 4:
      if (!global && pool.size() < 4) {
        pool.emplace_back(new tensor::Flags(f));
        model.push_back(std::map<unsigned, double>(m));
      } else if (!global) {
        size_t o = ops.below(pool.size());
        *pool[o] = *pool[w];
        model[o] = std::map<unsigned, double>(model[w]);
      }
      break;
    default:
      if (ops.chance(0.02)) {
        unsigned bad = ops.chance(0.5) ? m.rbegin()->first + 1 + ops.below(3) : ops.chance(0.5) ? ~0U : 1000000U;
        bool set = ops.chance(0.5);
        expect_abort(c, set ? "flags:set unknown" : "flags:get unknown", [&] { if (set) f.set(bad, 1.0); else { volatile double x = f.get(bad); (void)x; } });
      }
    }
    for (size_t p = 0; p < (global ? 1 : pool.size()); p++)
      for (auto &x : global ? all : model[p]) {
        double got = (global ? tensor::FLAGS : *pool[p]).get(x.first);
        CHECK_MSG(c, same(got, x.second), "flags:value", "flag " << x.first << " is " << got << " expected " << x.second << " after step " << k);
      }
    mon::shared()->events++;
    if (global && all.size() > 200) break;
  }
}
// ---- P30: clock ---------------------------------------------------------------------------------------------------
static double wall() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
FAMILY(P30, clock, 3000, 50000) {
  int steps = c.r.in(2, 12);
  c.what << "clock, " << steps << " steps " << c.r.next();
  c.ready();
  c.saw_what();
  const double eps = 1e-5;
  double lo = 0, hi = 0, when = 0;
  bool started = false;
  std::vector<std::array<double, 3>> marks;
  for (int k = 0; k < steps; k++) {
    if (c.r.chance(0.3)) usleep(c.r.below(c.r.chance(0.1) ? 20000 : 500));
    double a = wall(), x, b;
    switch (started ? c.r.below(4) : 0) {
    case 0:
      when = tensor::tic(); b = wall(); lo = a; hi = b; started = true;
      marks.push_back({when, a, b});
      break;
    case 1: case 2:
      x = tensor::toc(); b = wall();
      CHECK_MSG(c, x >= a - hi - eps && x <= b - lo + eps, "clock:toc", x << " s since tic(), expected " << a - hi << " to " << b - lo);
      break;
    default: {
      auto m = marks[c.r.below(marks.size())];
      a = wall(); x = tensor::toc(m[0]); b = wall();
      CHECK_MSG(c, x >= a - m[2] - eps && x <= b - m[1] + eps, "clock:toc since", x << " s since a mark, expected " << a - m[2] << " to " << b - m[1]);
    }
    }
    mon::shared()->events++;
  }
}
// ---- P30: files ---------------------------------------------------------------------------------------------------
enum Node { Nothing, File, Dir, Socket, Fifo, LinkFile, LinkDir, LinkNone };  // the last three: symbolic links, the third one to nowhere
static bool visible(Node k) { return k != Nothing && k != LinkNone; }
struct Entry { Node kind; std::string text; int links; Entry(Node k = Nothing, const std::string &t = "") : kind(k), text(t), links(0) {} };
static std::string slurp(const std::string &p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void wipe(const std::string &d) {  // D and what it holds, without following links
  if (DIR *p = opendir(d.c_str())) {
    while (struct dirent *e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") { n = d + "/" + n; struct stat s; if (!lstat(n.c_str(), &s) && S_ISDIR(s.st_mode)) wipe(n); else unlink(n.c_str()); } }
    closedir(p);
  }
  rmdir(d.c_str());
}
FAMILY(P30, files, 6000, 100000) {
  mon::Rng &r = c.r;
  static const char *odd[] = {"a", "b.sdf", "with blank", ".hidden", "tab\tname", "-rf", "semi;colon", "\xc3\xa9", "new\nline", "*", "a.tmp", "a.lck", "a~", "$HOME"};
  std::string base = mon::scratch_dir() + "/files" + std::to_string(getpid());
  wipe(base);
  mkdir(base.c_str(), 0777);
  struct Clean { std::string d; ~Clean() { wipe(d); } } clean = {base};
  const std::string target[3] = {base + "/target file", base + "/target dir", base + "/target none"};
  std::ofstream(target[0].c_str()) << "behind the link";
  mkdir(target[1].c_str(), 0777);
  std::vector<std::string> names;
  for (int k = 0; k < 4; k++) names.push_back(base + "/" + odd[r.below(14)] + (r.chance(0.1) ? std::string(200, 'x') : ""));
  names.push_back(base + "/missing/file");
  std::sort(names.begin(), names.end());
  names.erase(std::unique(names.begin(), names.end()), names.end());
  std::map<std::string, Entry> m;
  for (auto &n : names) {
    if (n == base + "/missing/file") continue;
    switch (r.below(10)) {
    case 8: { int k = r.below(3); if (!symlink(target[k].c_str(), n.c_str())) m[n] = Entry((Node)(LinkFile + k)); break; }
    case 0: case 1: case 2: { std::string t(r.below(50), 'a' + r.below(26)); std::ofstream(n.c_str()) << t; m[n] = Entry(File, t); break; }
    case 3: mkdir(n.c_str(), 0777); m[n] = Entry(Dir); break;
    case 4: if (r.chance(0.3)) {
        int s = socket(AF_UNIX, SOCK_STREAM, 0);
        struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
        if (n.size() < sizeof a.sun_path) { strcpy(a.sun_path, n.c_str()); if (!bind(s, (struct sockaddr *)&a, sizeof a)) m[n] = Entry(Socket); }
        close(s);
      }
      break;
    case 5: if (r.chance(0.3) && !mkfifo(n.c_str(), 0666)) m[n] = Entry(Fifo); break;
    default: break;
    }
  }
  int steps = r.in(1, 12);
  c.what << names.size() << " names, " << steps << " steps:";
  mode_t mask = umask(022);
  umask(mask);
  auto short_name = [&](const std::string &n) { return mon::json(n.substr(base.size() + 1).substr(0, 20)); };
  for (int k = 0; k < steps; k++) {
    const std::string n = r.pick(names), o = r.pick(names);
    bool nest = n == base + "/missing/file";
    Node kind = m.count(n) ? m[n].kind : Nothing, okind = m.count(o) ? m[o].kind : Nothing;
    int op = r.below(6);
    static const char *ops[] = {"exists", "isdir", "mkdir", "delete", "rename", "rename over"};
    c.what << ' ' << ops[op] << ' ' << short_name(n);
    if (op >= 4) c.what << " to " << short_name(o);
    c.ready();
    switch (op) {
    case 0: { bool x = sdf::file_exists(n); CHECK_MSG(c, x == visible(kind), "file_exists", x << " kind " << kind); break; }
    case 1: { bool x = sdf::isdir(n); CHECK_MSG(c, x == (kind == Dir || kind == LinkDir), "isdir", x << " kind " << kind); break; }
    case 2: {
      int mode = r.chance(0.5) ? 0777 : 0700;
      bool x = mode == 0777 ? sdf::make_directory(n) : sdf::make_directory(n, mode);
      CHECK_MSG(c, x == (kind == Nothing && !nest), "make_directory", x << " kind " << kind);
      if (x) {
        struct stat s;
        CHECK_MSG(c, !stat(n.c_str(), &s) && (s.st_mode & 0777) == (mode & ~mask), "make_directory:mode", std::oct << s.st_mode);
        m[n] = Entry(Dir);
      }
      break;
    }
    case 3: {
      bool x = sdf::delete_file(n);
      CHECK_MSG(c, x == (kind != Nothing && kind != Dir), "delete_file", x << " kind " << kind);
      if (x) m.erase(n);
      break;
    }
    default: {
      bool over = op == 5, dflt = over && r.chance(0.5);
      if (okind == LinkNone && !over && visible(kind)) break;  // a link to nowhere is and is not there
      if (!visible(kind) || (visible(okind) && !over)) {
        if (r.chance(0.2)) expect_abort(c, !visible(kind) ? "rename_file:missing" : "rename_file:in the way", [&] { sdf::rename_file(n, o, over); });
        break;
      }
      bool x = dflt ? sdf::rename_file(n, o) : sdf::rename_file(n, o, over);
      bool onest = o == base + "/missing/file";
      bool can = !onest && (n == o || okind == Nothing || (kind == Dir) == (okind == Dir));
      CHECK_MSG(c, x == can, "rename_file", x << " kinds " << kind << ' ' << okind);
      if (x && n != o) { m[o] = m[n]; m.erase(n); }
    }
    }
    // the directory is what the model says, whatever the answer was
    for (auto &name : names) {
      Entry e = m.count(name) ? m[name] : Entry();
      struct stat s;
      bool there = !lstat(name.c_str(), &s);
      Node now = !there ? Nothing : S_ISREG(s.st_mode) ? File : S_ISDIR(s.st_mode) ? Dir : S_ISSOCK(s.st_mode) ? Socket : S_ISLNK(s.st_mode) ? LinkFile : Fifo;
      if (now == LinkFile) {
        char buf[4096];
        ssize_t l = readlink(name.c_str(), buf, sizeof buf);
        std::string to(buf, l < 0 ? 0 : l);
        now = to == target[1] ? LinkDir : to == target[2] ? LinkNone : LinkFile;
      }
      CHECK_MSG(c, now == e.kind, "files:kind", ops[op] << " left " << short_name(name) << " as " << now << " expected " << e.kind);
      if (now == File) CHECK_MSG(c, slurp(name) == e.text, "files:content", ops[op] << " changed the content of " << short_name(name));
    }
    struct stat s;
    CHECK_MSG(c, slurp(target[0]) == "behind the link" && !lstat(target[1].c_str(), &s) && S_ISDIR(s.st_mode) && lstat(target[2].c_str(), &s), "files:behind a link", ops[op] << " changed what a link leads to");
    mon::shared()->events++;
  }
  c.saw_what();
}
// A program that installed the abort handler still ends with a failure, without going on
FAMILY(P30, handler, 60, 2000) {
  int how = c.r.below(4);
  long n = c.r.in(1, 5);
  c.what << "abort handler, failure " << how << ' ' << n;
  c.ready();
  c.saw_what();
  RTensor t = RTensor::ones(n, n);
  mon::ChildEnd e = mon::run_child([&] {
    tensor::tensor_abort_handler();
    signal(SIGALRM, SIG_DFL);
    switch (how) {
    case 0: abort();
    case 1: std::cout << t(n, 0); break;
    case 2: tensor::FLAGS.set(100000, 1); break;
    default: std::cout << tensor::mmult(t, RTensor::ones(n + 1, 1)); break;
    }
  });
  CHECK_MSG(c, !e.returned && !e.timeout && (e.signaled || e.code != 0), "handler", e.text());
  CHECK_MSG(c, e.err.find("runtime error") == std::string::npos && e.err.find("AddressSanitizer") == std::string::npos, "handler:memory", e.text());
}
MON_MAIN
