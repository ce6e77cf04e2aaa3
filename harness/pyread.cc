// P32: the Python reader of data files, run in a process of its own and asked what it finds.
#include "sdfmodel.h"
#include <map>
using namespace sdfm;

// ---------------------------------------------------------------- the reader process
struct Value { bool list; std::vector<std::string> kind, dims, data; };
struct Answer {
  bool ok;
  std::string error;
  std::map<std::string, Value> vars;
};
static FILE *to_reader, *from_reader;
static std::string unhex(const std::string &h) {
  std::string o;
  if (h == "-") return o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
  return o;
}
static std::string get_line() {
  std::string s;
  for (int ch; (ch = getc(from_reader)) != EOF && ch != '\n';) s += (char)ch;
  if (feof(from_reader)) { fprintf(stderr, "the reader process went away\n"); _exit(99); }
  return s;
}
static std::string env(const char *name, const char *other) { const char *e = getenv(name); return e ? e : other; }
static void start_reader() {
  if (to_reader) return;
  int a[2], b[2];
  if (pipe(a) || pipe(b)) { perror("pipe"); _exit(99); }
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(99); }
  if (pid == 0) {
    dup2(a[0], 0);
    dup2(b[1], 1);
    close(a[0]); close(a[1]); close(b[0]); close(b[1]);
    execlp("python3-vt", "python3-vt", VERIF_READER, (env("TENSOR_REPO", "/repo") + "/python").c_str(), (char *)0);
    perror("python3-vt");
    _exit(99);
  }
  close(a[0]); close(b[1]);
  to_reader = fdopen(a[1], "w");
  from_reader = fdopen(b[0], "r");
  if (get_line() != "ready") { fprintf(stderr, "no reader\n"); _exit(99); }
}
static Answer ask(const std::string &question) {
  start_reader();
  fprintf(to_reader, "%s\n", question.c_str());
  fflush(to_reader);
  Answer a;
  std::string l = get_line();
  a.ok = l.compare(0, 3, "ok ") == 0;
  if (!a.ok) { a.error = l; return a; }
  for (long n = atol(l.c_str() + 3); n-- > 0;) {
    std::istringstream s(get_line());
    std::string var, name, form;
    long k;
    s >> var >> name >> form >> k;
    Value v;
    v.list = form == "list";
    while (k-- > 0) {
      std::istringstream p(get_line());
      std::string kind, dims, data;
      p >> kind >> dims >> data;
      v.kind.push_back(kind);
      v.dims.push_back(dims);
      v.data.push_back(unhex(data));
    }
    a.vars[unhex(name)] = v;
  }
  return a;
}
// ---------------------------------------------------------------- what it has to be
static std::string dims_text(const Dims &d) {
  std::ostringstream o;
  for (size_t i = 0; i < d.size(); i++) o << (i ? "x" : "") << d[i];
  return d.empty() ? "-" : o.str();
}
template <class E> static std::string raw(const std::vector<E> &v) { return v.empty() ? std::string() : std::string((const char *)&v[0], v.size() * sizeof(E)); }
template <class E> static void add(Value &v, const Arr<E> &a) {
  v.kind.push_back(sizeof(E) == 8 ? "R8" : "C16");
  // a tensor without indices holds nothing, as an array with no elements along one index
  v.dims.push_back(a.d.empty() ? "0" : dims_text(a.d));
  v.data.push_back(raw(a.v));
}
static Value value_of(const Record &q) {
  Value v;
  v.list = q.type == RTV || q.type == CTV;
  switch (q.type) {
  case INT: case SIZE: { RA a(Dims{1}); a.v[0] = (double)q.i; add(v, a); break; }
  case REAL: { RA a(Dims{1}); a.v[0] = q.x; add(v, a); break; }
  case COMPLEX: { CA a(Dims{1}); a.v[0] = q.z; add(v, a); break; }
  default:
    for (size_t k = 0; k < q.r.size(); k++) add(v, q.r[k]);
    for (size_t k = 0; k < q.c.size(); k++) add(v, q.c[k]);
  }
  return v;
}
static std::string cut(const std::string &name) { return name.substr(0, 63); }
static Record a_record(mon::Rng &r, bool big = true) {
  Record q = any_record(r, big);
  for (size_t i = 0; i < q.name.size(); i++) if (q.name[i] < 32 || q.name[i] > 126) q.name[i] = (char)('a' + (q.name[i] & 15));
  if (r.chance(0.1) && q.name.size() < 40) q.name += "\xc3\xa9\xce\xb1";  // letters beyond ASCII
  return q;
}
static void judge(Case &c, const Answer &a, const std::map<std::string, Value> &want, const std::string &key) {
  CHECK_MSG(c, a.ok, key + ":refused", a.error);
  for (std::map<std::string, Value>::const_iterator i = want.begin(); i != want.end(); ++i) {
    std::map<std::string, Value>::const_iterator j = a.vars.find(i->first);
    CHECK_MSG(c, j != a.vars.end(), key + ":missing", "no variable '" << show_bytes(i->first) << "' among " << a.vars.size());
    const Value &w = i->second, &g = j->second;
    CHECK_MSG(c, w.list == g.list && w.kind.size() == g.kind.size(), key + ":form", "'" << show_bytes(i->first) << "' is a " << (g.list ? "list" : "tensor") << " of " << g.kind.size() << " expected " << w.kind.size());
    for (size_t k = 0; k < w.kind.size(); k++) {
      CHECK_MSG(c, w.kind[k] == g.kind[k], key + ":type", "'" << show_bytes(i->first) << "' has type " << g.kind[k] << " expected " << w.kind[k]);
      CHECK_MSG(c, w.dims[k] == g.dims[k], key + ":dims", "'" << show_bytes(i->first) << "' has dimensions " << g.dims[k] << " expected " << w.dims[k]);
      CHECK_MSG(c, w.data[k] == g.data[k], key + ":elements", "'" << show_bytes(i->first) << "' part " << k << " differs");
    }
    mon::shared()->events++;
  }
  for (std::map<std::string, Value>::const_iterator j = a.vars.begin(); j != a.vars.end(); ++j)
    CHECK_MSG(c, want.count(j->first) || j->first.empty(), key + ":extra", "variable '" << show_bytes(j->first) << "' was never written");
}
static std::string fresh(const char *stem) {
  std::string p = mon::scratch_dir() + "/" + stem;
  unlink(p.c_str());
  unlink((p + ".tmp").c_str());
  unlink((p + ".lck").c_str());
  return p;
}
static std::map<std::string, Value> wanted(const std::vector<Record> &q) {
  std::map<std::string, Value> w;
  for (size_t k = 0; k < q.size(); k++) if (q[k].name.size()) w[cut(q[k].name)] = value_of(q[k]);
  return w;
}
// Whatever the library wrote, in one session or several
FAMILY(P32, written, 15000, 150000) {
  std::string path = fresh("f");
  std::vector<Record> q;
  for (long n = c.r.in(0, 6); n-- > 0;) q.push_back(a_record(c.r));
  size_t half = c.r.below(q.size() + 1);
  int mode = c.r.below(3);
  c.what << "written";
  for (size_t k = 0; k < q.size(); k++) c.what << (k == half ? " | " : k ? ", " : " ") << show(q[k]);
  c.ready();
  c.saw_what();
  { sdf::OutDataFile f(path, flag(mode)); for (size_t k = 0; k < half; k++) dump(f, q[k]); }
  { sdf::OutDataFile f(path); for (size_t k = half; k < q.size(); k++) dump(f, q[k]); }
  std::string before = slurp(path);
  judge(c, ask(path), wanted(q), "written");
  c.check(slurp(path) == before, "written:reading changed the file");
}
// ---------------------------------------------------------------- files of other machines
struct Writer {
  std::string s;
  int size;     // bytes of a long
  bool little;
  void bytes(const void *p, int n) {
    const char *b = (const char *)p;
    for (int i = 0; i < n; i++) s += b[little ? i : n - 1 - i];
  }
  void num(long v) { if (size == 8) bytes(&v, 8); else { int w = (int)v; bytes(&w, 4); } }
  void name(const std::string &n) { std::string f = cut(n); f.resize(64, '\0'); s += f; }
  void real(double x) { bytes(&x, 8); }
  void elem(double x) { real(x); }
  void elem(cdouble z) { double p[2]; memcpy(p, &z, 16); real(p[0]); real(p[1]); }
  template <class E> void tensor(const std::string &n, const Arr<E> &a) {
    name(n);
    num(sizeof(E) == 8 ? 0 : 1);
    num(a.d.size());
    for (size_t i = 0; i < a.d.size(); i++) num(a.d[i]);
    num(a.v.size());
    for (size_t i = 0; i < a.v.size(); i++) elem(a.v[i]);
  }
  void record(const Record &q) {
    RA x(Dims{1});
    switch (q.type) {
    case INT: case SIZE: x.v[0] = (double)q.i; tensor(q.name, x); break;
    case REAL: x.v[0] = q.x; tensor(q.name, x); break;
    case COMPLEX: { CA z(Dims{1}); z.v[0] = q.z; tensor(q.name, z); break; }
    case RT: tensor(q.name, q.r[0]); break;
    case CT: tensor(q.name, q.c[0]); break;
    case RTV: name(q.name); num(2); num(q.r.size()); for (size_t k = 0; k < q.r.size(); k++) tensor("", q.r[k]); break;
    default: name(q.name); num(3); num(q.c.size()); for (size_t k = 0; k < q.c.size(); k++) tensor("", q.c[k]); break;
    }
  }
};
FAMILY(P32, foreign, 15000, 150000) {
  Writer w;
  w.size = c.r.chance(0.5) ? 8 : 4;
  w.little = c.r.chance(0.5);
  std::vector<Record> q;
  for (long n = c.r.in(0, 5); n-- > 0;) q.push_back(a_record(c.r));
  c.what << "foreign longs of " << w.size << (w.little ? " little" : " big");
  for (size_t k = 0; k < q.size(); k++) c.what << (k ? ", " : " ") << show(q[k]);
  c.ready();
  c.saw_what();
  w.name(std::string("sdf4") + (w.size == 8 ? "8" : "4") + (w.little ? "1" : "0"));
  for (size_t k = 0; k < q.size(); k++) w.record(q[k]);
  std::string path = fresh("f");
  spit(path, w.s);
  if (w.size == 8 && w.little && c.r.chance(0.5)) {  // the model of the format is the library's
    std::string other = fresh("g");
    { sdf::OutDataFile f(other); for (size_t k = 0; k < q.size(); k++) dump(f, q[k]); }
    c.check(slurp(other) == w.s, "foreign:format");
  }
  judge(c, ask(path), wanted(q), "foreign");
}
// ---------------------------------------------------------------- damaged files
FAMILY(P32, damaged, 20000, 150000) {
  std::string path = fresh("f");
  std::vector<Record> q;
  std::vector<size_t> end;
  for (long n = c.r.in(1, 4); n-- > 0;) q.push_back(a_record(c.r, false));
  for (size_t k = 0; k < q.size(); k++) { sdf::OutDataFile f(path); dump(f, q[k]); f.close(); end.push_back(slurp(path).size()); }
  std::string bytes = slurp(path);
  std::map<std::string, Value> want = wanted(q);
  int kind = c.r.below(3);
  long pos = 0;
  std::vector<Record> whole;
  if (kind == 0) {  // cut anywhere: the records before the cut, or a refusal
    pos = c.r.chance(0.3) ? 64 + c.r.below(80) : c.r.below(bytes.size());
    if (pos > (long)bytes.size()) pos = bytes.size();
    bytes.resize(pos);
    for (size_t k = 0; k < q.size() && (long)end[k] <= pos; k++) whole.push_back(q[k]);
  } else if (kind == 1) {  // a type code that does not exist
    size_t k = c.r.below(q.size());
    pos = (k ? end[k - 1] : 64) + 64;
    long code = c.r.chance(0.5) ? 4 : c.r.chance(0.5) ? (long)c.r.next() : c.r.in(5, 1000);
    if (code >= -1 && code <= 3) code = 77;
    memcpy(&bytes[pos], &code, 8);
  } else {  // not a data file
    pos = c.r.below(6);
    if (pos == 3) pos = 4;  // the size of an int plays no part in the format
    bytes[pos] ^= (char)(pos < 3 ? c.r.in(1, 255) : pos == 4 ? 3 : 64);
    if (pos == 5) bytes[5] = (char)c.r.in('2', 'z');
  }
  c.what << "damaged " << kind << " at " << pos << " of " << slurp(path).size();
  for (size_t k = 0; k < q.size(); k++) c.what << (k ? ", " : " ") << show(q[k]);
  c.ready();
  c.saw_what();
  spit(path, bytes);
  Answer a = ask(path);
  if (kind == 0) {
    bool boundary = pos == 64 || (pos > 64 && whole.size() && (long)end[whole.size() - 1] == pos);
    if (boundary) judge(c, a, wanted(whole), "damaged:cut between records");
    else CHECK_MSG(c, !a.ok, "damaged:cut", "a file cut at " << pos << " was read as " << a.vars.size() << " variables");
  } else CHECK_MSG(c, !a.ok, kind == 1 ? "damaged:type code" : "damaged:header", "read as " << a.vars.size() << " variables");
}
// ---------------------------------------------------------------- directories of results
FAMILY(P32, dataset, 6000, 50000) {
  std::string dir = mon::scratch_dir() + "/d";
  mkdir(dir.c_str(), 0755);
  long n = c.r.in(1, 6);
  bool sorted = c.r.chance(0.7);
  std::vector<Record> shape;  // what every file holds, with elements of its own
  for (long k = c.r.in(0, 4); k-- > 0;) {
    Record q = a_record(c.r, false);
    q.name = "v" + std::to_string(k) + (q.name.size() < 50 ? q.name : "");
    shape.push_back(q);
  }
  std::vector<std::pair<double, std::vector<Record> > > files;
  c.what << "dataset of " << n << (sorted ? " sorted by" : "");
  for (long i = 0; i < n; i++) {
    double key;
    bool again;
    do {
      key = c.r.chance(0.5) ? (double)c.r.in(-20, 20) : c.r.normal() * 1e3;
      again = false;
      for (size_t k = 0; k < files.size(); k++) if (files[k].first == key) again = true;
    } while (again);
    std::vector<Record> q = shape;
    for (size_t k = 0; k < q.size(); k++) {
      q[k].i = (int)c.r.next();
      q[k].x = any_double(c.r);
      fill(c.r, q[k].z);
      for (size_t m = 0; m < q[k].r.size(); m++) for (long j = 0; j < q[k].r[m].size(); j++) fill(c.r, q[k].r[m].v[j]);
      for (size_t m = 0; m < q[k].c.size(); m++) for (long j = 0; j < q[k].c[m].size(); j++) fill(c.r, q[k].c[m].v[j]);
      if (q[k].type == SIZE) q[k].i = std::labs(q[k].i);
    }
    files.push_back(std::make_pair(key, q));
    c.what << " " << key;
  }
  for (size_t k = 0; k < shape.size(); k++) c.what << (k ? ", " : " ") << show(shape[k]);
  c.ready();
  c.saw_what();
  std::vector<std::string> made;
  for (long i = 0; i < n; i++) {
    std::string path = dir + "/" + std::to_string(c.r.in(0, 99)) + "_" + std::to_string(i) + ".dat";
    made.push_back(path);
    sdf::OutDataFile f(path, flag(c.r.in(1, 2)));
    long at = c.r.below(files[i].second.size() + 1);
    for (long k = 0; k <= (long)files[i].second.size(); k++) {
      if (k == at) f.dump(files[i].first, "key");
      if (k < (long)files[i].second.size()) dump(f, files[i].second[k]);
    }
  }
  Answer a = ask("dataset " + std::string(sorted ? "key " : "- ") + dir);
  for (size_t i = 0; i < made.size(); i++) unlink(made[i].c_str());
  CHECK_MSG(c, a.ok, "dataset:refused", a.error);
  CHECK_MSG(c, a.vars.size() == shape.size() + 1 && a.vars.count("key"), "dataset:variables", a.vars.size());
  // The order of the files: by key, or any, told by the keys
  std::vector<long> order;
  if (sorted) {
    for (long i = 0; i < n; i++) order.push_back(i);
    std::sort(order.begin(), order.end(), [&](long x, long y) { return files[x].first < files[y].first; });
  } else {
    const Value &k = a.vars["key"];
    c.check(k.data.size() == 1 && k.data[0].size() == 8 * (size_t)n, "dataset:keys");
    for (long i = 0; i < n; i++) {
      double x;
      memcpy(&x, k.data[0].data() + 8 * i, 8);
      for (long j = 0; j < n; j++) if (files[j].first == x && std::find(order.begin(), order.end(), j) == order.end()) { order.push_back(j); break; }
      CHECK_MSG(c, (long)order.size() == i + 1, "dataset:keys", "key " << x << " was never written");
    }
  }
  std::map<std::string, Value> want;
  Value key;
  key.list = false;
  key.kind.push_back("R8");
  key.dims.push_back("1x" + std::to_string(n));
  key.data.push_back("");
  for (long i = 0; i < n; i++) key.data[0] += std::string((const char *)&files[order[i]].first, 8);
  want["key"] = key;
  for (size_t k = 0; k < shape.size(); k++) {
    Value w = value_of(files[order[0]].second[k]);
    for (long i = 1; i < n; i++) {
      Value x = value_of(files[order[i]].second[k]);
      if (w.list) {
        w.kind.insert(w.kind.end(), x.kind.begin(), x.kind.end());
        w.dims.insert(w.dims.end(), x.dims.begin(), x.dims.end());
        w.data.insert(w.data.end(), x.data.begin(), x.data.end());
      } else w.data[0] += x.data[0];
    }
    if (!w.list) w.dims[0] += "x" + std::to_string(n);
    want[shape[k].name] = w;
  }
  judge(c, a, want, "dataset");
}
MON_MAIN
