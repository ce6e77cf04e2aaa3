// P21 and P24: data files.
#include "sdfmodel.h"
using namespace sdfm;

static std::string fresh(const char *stem) {
  std::string p = mon::scratch_dir() + "/" + stem;
  unlink(p.c_str());
  unlink((p + ".tmp").c_str());
  unlink((p + ".lck").c_str());
  return p;
}
static void read_all(Case &c, const std::string &path, const std::vector<Record> &model, const std::string &key, size_t upto) {
  sdf::InDataFile f(path);
  for (size_t k = 0; k < upto; k++) {
    bool named = c.r.chance(0.7);
    std::string bad = load(f, model[k], named ? model[k].name : "", c.r.chance(0.3));
    CHECK_MSG(c, bad.empty(), key, "record " << k << " of " << model.size() << " (" << show(model[k]) << ") was read as " << bad);
  }
  if (c.r.chance(0.5)) f.close();
}
// Any sequence of sessions over one or two files
FAMILY(P21, history, 14000, 600000) {
  std::string path = fresh("f");
  std::vector<Record> model;
  bool made = false;
  long sessions = c.r.in(1, 5);
  std::ostringstream log;
  for (long s = 0; s < sessions; s++) {
    int mode = c.r.chance(0.5) ? 0 : c.r.in(1, 2);
    long n = c.r.chance(0.1) ? 0 : c.r.in(1, 6);
    std::vector<Record> add;
    for (long k = 0; k < n; k++) add.push_back(any_record(c.r));
    log << " open" << mode << "(";
    for (long k = 0; k < n; k++) log << (k ? ", " : "") << show(add[k]);
    log << ")";
    c.what.str("");
    c.what << log.str();
    c.ready();
    if (mode != 0) model.clear();
    {
      sdf::OutDataFile f(path, flag(mode));
      for (long k = 0; k < n; k++) { dump(f, add[k]); model.push_back(add[k]); }
      if (c.r.chance(0.5)) f.close();
      if (c.r.chance(0.1)) f.close();
    }
    made = true;
    CHECK_MSG(c, !exists(path + ".tmp"), "sdf:temporary left", path + ".tmp");
    CHECK_MSG(c, exists(path), "sdf:no file", path);
    if (c.r.chance(0.6) || s == sessions - 1) {
      std::string before = slurp(path);
      read_all(c, path, model, "sdf:history", c.r.chance(0.8) ? model.size() : c.r.below(model.size() + 1));
      CHECK_MSG(c, slurp(path) == before, "sdf:reading changed the file", path);
    }
  }
  c.saw_what();
  (void)made;
}
// What a shared session appends leaves the earlier bytes alone
FAMILY(P21, append, 6000, 300000) {
  std::string path = fresh("f");
  std::vector<Record> a;
  for (long n = c.r.in(0, 4); n-- > 0;) a.push_back(any_record(c.r));
  long na = a.size();
  for (long n = c.r.in(0, 4); n-- > 0;) a.push_back(any_record(c.r));
  c.what << "append";
  for (size_t k = 0; k < a.size(); k++) c.what << ((long)k == na ? " | " : ", ") << show(a[k]);
  c.ready();
  c.saw_what();
  { sdf::OutDataFile f(path, flag(c.r.below(3))); for (long k = 0; k < na; k++) dump(f, a[k]); }
  std::string before = slurp(path);
  { sdf::OutDataFile f(path); for (size_t k = na; k < a.size(); k++) dump(f, a[k]); }
  std::string after = slurp(path);
  CHECK_MSG(c, after.size() >= before.size() && after.compare(0, before.size(), before) == 0, "sdf:append rewrote", before.size() << " bytes before, " << after.size() << " after");
  read_all(c, path, a, "sdf:append", a.size());
  // the same records in one session give the same file
  std::string other = fresh("g");
  { sdf::OutDataFile f(other, flag(c.r.below(3))); for (size_t k = 0; k < a.size(); k++) dump(f, a[k]); }
  read_all(c, other, a, "sdf:one session", a.size());
  if (c.r.chance(0.3)) {  // copy of the bytes under another name
    std::string copy = fresh("h");
    spit(copy, after);
    read_all(c, copy, a, "sdf:copied file", a.size());
  }
}

// Sizes around the ones where buffers, pages and pieces begin and end, and long vectors
FAMILY(P21, large, 700, 20000) {
  std::string path = fresh("f");
  std::vector<Record> q;
  for (long n = c.r.in(1, 3); n-- > 0;) {
    Record g;
    g.name = any_name(c.r);
    g.i = 0;
    g.x = 0;
    bool cplx = c.r.chance(0.4);
    if (c.r.chance(0.25)) {
      g.type = cplx ? CTV : RTV;
      long k = c.r.chance(0.5) ? c.r.in(9, 12) : 1L << c.r.in(3, 8);
      for (k += c.r.in(-1, 1); k-- > 0;) if (cplx) g.c.push_back(any_arr<cdouble>(c.r, 4)); else g.r.push_back(any_arr<double>(c.r, 4));
    } else {
      g.type = cplx ? CT : RT;
      double u = c.r.unit();
      long size = u < 0.45 ? 1L << c.r.in(8, 16) : u < 0.75 ? 512 * c.r.in(1, 130) : u < 0.85 ? 1000 * c.r.in(1, 66) : c.r.in(300, 66000);
      if (c.r.chance(0.4)) size += c.r.in(-1, 1);
      Dims d{size};
      for (int k = c.r.in(0, 3); k-- > 0;) {  // the same elements with more indices
        long f = c.r.in(1, 8);
        if (d.back() % f == 0) { d.back() /= f; d.push_back(f); }
      }
      if (c.r.chance(0.3)) std::reverse(d.begin(), d.end());
      if (cplx) { CA a(d); for (long i = 0; i < a.size(); i++) { mon::u64 u = c.r.next(); a.v[i] = cdouble((double)(u >> 20), (double)(u & 0xfffff)); } g.c.push_back(a); }
      else { RA a(d); for (long i = 0; i < a.size(); i++) a.v[i] = (double)(c.r.next() >> 11); g.r.push_back(a); }
    }
    q.push_back(g);
    if (c.r.chance(0.7)) { Record small = any_record(c.r, false); q.push_back(small); }
  }
  c.what << "large";
  for (size_t k = 0; k < q.size(); k++) c.what << (k ? ", " : " ") << show(q[k]);
  c.ready();
  c.saw_what();
  int mode = c.r.below(3);
  { sdf::OutDataFile f(path, flag(mode)); for (size_t k = 0; k < q.size(); k++) dump(f, q[k]); }
  mon::ChildEnd e = mon::run_child([&]() {
    sdf::InDataFile f(path);
    for (size_t k = 0; k < q.size(); k++) {
      std::string bad = load(f, q[k], c.r.chance(0.7) ? q[k].name : "", c.r.chance(0.3));
      if (bad.size()) { fprintf(stderr, "record %ld misread: %s\n", (long)k, bad.substr(0, 300).c_str()); _exit(51); }
    }
  });
  mon::shared()->checks++;
  if (!e.returned) c.fail("sdf:large", e.text());
}

// ---------------------------------------------------------------- P24
struct Made { std::string path, bytes; std::vector<Record> q; std::vector<size_t> end; };
static Made make(Case &c, long lo, long hi) {
  Made m;
  m.path = fresh("f");
  long n = c.r.in(lo, hi);
  for (long k = 0; k < n; k++) m.q.push_back(any_record(c.r, false));
  {
    sdf::OutDataFile f(m.path, flag(c.r.below(2)));
    m.end.push_back(slurp(m.path).size());
    for (long k = 0; k < n; k++) { dump(f, m.q[k]); m.end.push_back(slurp(m.path).size()); }
  }
  m.bytes = slurp(m.path);
  return m;
}
// The child tells how many records it read; exit 51 when one of them was wrong.
struct Told { volatile long good; };
static Told *told() {
  static Told *t = (Told *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return t;
}
static const int MISREAD = 51;
static mon::ChildEnd read_child(const std::string &path, const std::vector<Record> &q, size_t n, bool named) {
  told()->good = -1;
  return mon::run_child([&]() {
    sdf::InDataFile f(path);
    told()->good = 0;
    for (size_t k = 0; k < n; k++) {
      std::string bad = load(f, q[k], named ? q[k].name : "", 0);
      if (bad.size()) { fprintf(stderr, "record %ld misread: %s\n", (long)k, bad.substr(0, 300).c_str()); _exit(MISREAD); }
      told()->good = k + 1;
    }
  });
}
static void must_stop(Case &c, const mon::ChildEnd &e, const std::string &key) {
  mon::shared()->checks++;
  bool misread = !e.signaled && e.code == MISREAD;
  if (!e.aborted() || misread)
    c.fail(key + (misread ? ":misread" : e.returned ? ":accepted" : e.sanitizer ? ":memory" : e.timeout ? ":hang" : ":signal"), e.text());
}
// Cut anywhere: what is whole is read, then the program stops.
FAMILY(P24, truncated, 1600, 60000) {
  Made m = make(c, 1, 4);
  size_t cut;
  double u = c.r.unit();
  if (u < 0.15) cut = c.r.below(m.end[0] + 1);  // header
  else if (u < 0.5) {                            // near the boundary of fields and records
    size_t b = m.end[c.r.below(m.end.size())];
    static const long near_[] = {-1, 0, 1, -8, -9, -7, 63, 64, 65, 71, 72, 73, 79, 80, 81, 88};
    long p = (long)b + near_[c.r.below(16)];
    cut = p < 0 ? 0 : std::min<size_t>(p, m.bytes.size() - 1);
  } else cut = c.r.below(m.bytes.size());
  if (cut >= m.bytes.size()) cut = m.bytes.size() - 1;
  c.what << "cut at " << cut << " of " << m.bytes.size();
  for (size_t k = 0; k < m.q.size(); k++) c.what << ", " << show(m.q[k]) << " ends " << m.end[k + 1];
  c.ready();
  c.saw_what();
  spit(m.path, m.bytes.substr(0, cut));
  long whole = -1;
  for (size_t k = 0; k < m.end.size(); k++) if (m.end[k] <= cut) whole = k;
  mon::ChildEnd e = read_child(m.path, m.q, m.q.size(), c.r.chance(0.5));
  must_stop(c, e, "truncated");
  CHECK_MSG(c, told()->good == whole, "truncated:whole records", "read " << told()->good << " records, " << whole << " are whole; " << e.text());
}
// Files that are something else
FAMILY(P24, foreign, 600, 20000) {
  Made m = make(c, 0, 2);
  std::string b = m.bytes;
  int kind = c.r.below(8);
  switch (kind) {
  case 0: { b.clear(); for (long n = c.r.in(0, 300); n-- > 0;) b += (char)c.r.next(); if (b.compare(0, 3, "sdf") == 0) b[0] = 'x'; break; }
  case 1: b = std::string(c.r.in(1, 300), '\0'); break;
  case 2: b.insert(0, 1, (char)c.r.next()); if (b.compare(0, 6, m.bytes, 0, 6) == 0) b[0] = 'x'; break;
  case 3: b.erase(0, c.r.in(1, 64)); break;
  case 4: { long p = c.r.below(3); b[p] = (char)(b[p] ^ (1 << c.r.below(8))); break; }
  case 5: b[3] = c.r.pick(std::vector<char>{'2', '8', '1', '0', 's'}); break;  // size of int
  case 6: b[4] = c.r.pick(std::vector<char>{'4', '2', '0', '9', 'l'}); break;  // size of long
  default: b[5] = c.r.pick(std::vector<char>{'0', '2', '3', 'x'}); break;      // byte order
  }
  c.what << "foreign " << kind << " " << show_bytes(b.substr(0, 80));
  c.ready();
  c.saw_what();
  spit(m.path, b);
  mon::ChildEnd e = read_child(m.path, m.q, m.q.size(), false);
  must_stop(c, e, "foreign");
  CHECK_MSG(c, told()->good == -1, "foreign:opened", told()->good << " records read");
}
// The other word sizes and byte order, written as such a machine would
static void put(std::string &o, mon::u64 v, int bytes, bool big) {
  for (int i = 0; i < bytes; i++) o += (char)(v >> 8 * (big ? bytes - 1 - i : i));
}
FAMILY(P24, machine, 300, 10000) {
  int ints = c.r.pick(std::vector<int>{2, 4, 8}), longs = c.r.pick(std::vector<int>{4, 8});
  bool big = c.r.chance(0.5);
  if (ints == 4 && longs == 8 && !big) big = true;
  std::string b(64, '\0'), name(64, '\0');
  b[0] = 's'; b[1] = 'd'; b[2] = 'f'; b[3] = '0' + ints; b[4] = '0' + longs; b[5] = big ? '0' : '1';
  name[0] = 'x';
  b += name;
  put(b, 0, longs, big); put(b, 1, longs, big); put(b, 1, longs, big); put(b, 1, longs, big);
  double x = 1.5; mon::u64 u; memcpy(&u, &x, 8);
  put(b, u, 8, big);
  c.what << "machine int " << ints << " long " << longs << (big ? " big" : " little");
  c.ready();
  c.saw_what();
  std::string path = fresh("f");
  spit(path, b);
  Record q; q.type = REAL; q.name = "x"; q.x = x; q.i = 0;
  mon::ChildEnd e = read_child(path, std::vector<Record>(1, q), 1, c.r.chance(0.5));
  must_stop(c, e, "machine");
}
// Requests that do not match the next record
static void load_as(sdf::InDataFile &f, int type, const std::string &name) {
  switch (type) {
  case INT: { int v; f.load(&v, name); break; }
  case SIZE: { size_t v; f.load(&v, name); break; }
  case REAL: { double v; f.load(&v, name); break; }
  case COMPLEX: { cdouble v; f.load(&v, name); break; }
  case RT: { RTensor v; f.load(&v, name); break; }
  case CT: { CTensor v; f.load(&v, name); break; }
  case RTV: { std::vector<RTensor> v; f.load(&v, name); break; }
  default: { std::vector<CTensor> v; f.load(&v, name); break; }
  }
}
static int code_of(int type) { return type == RT || type <= REAL ? 0 : type == CT || type == COMPLEX ? 1 : type == RTV ? 2 : 3; }
FAMILY(P24, mismatch, 1500, 60000) {
  Made m = make(c, 1, 3);
  size_t k = c.r.below(m.q.size());
  const Record &q = m.q[k];
  int type = q.type, kind = c.r.below(4);
  std::string name = q.name, damaged;
  size_t at = m.end[k];
  switch (kind) {
  case 0:  // another name
    switch (c.r.below(5)) {
    case 0: name += 'x'; break;
    case 1: if (name.size() > 1) name.erase(name.size() - 1); else name = "other"; break;
    case 2: name = any_name(c.r); break;
    case 3: { if (name.empty()) name = "q"; size_t p = c.r.below(name.size()); name[p] = name[p] == 'A' ? 'B' : 'A'; break; }
    default: name = "x" + name; break;
    }
    if (name.empty() || name == q.name) name = q.name + "_";
    break;
  case 1: {  // another type
    do type = c.r.below(8); while (code_of(type) == code_of(q.type));
    if (c.r.chance(0.5)) name = "";
    break;
  }
  case 2: {  // a number from a tensor that is not one
    bool cpl = c.r.chance(0.5);
    m.path = fresh("f");
    sdf::OutDataFile f(m.path, sdf::DataFile::SDF_OVERWRITE);
    Dims d = c.r.chance(0.3) ? Dims() : random_dims(c.r, c.r.in(1, 4), 0.3, 60);
    if (total(d) == 1) d[0] = c.r.chance(0.5) ? 0 : 2;
    if (cpl) f.dump(to_tensor(random_arr<cdouble>(c.r, d, INTS)), "t"); else f.dump(to_tensor(random_arr<double>(c.r, d, INTS)), "t");
    name = c.r.chance(0.5) ? "t" : "";
    type = cpl ? COMPLEX : c.r.below(3);
    k = 0;
    c.what << "from " << str(d) << " ";
    break;
  }
  default: {  // damaged type code or name in the file
    damaged = m.bytes;
    if (c.r.chance(0.6)) {
      static const mon::u64 codes[] = {4, 5, 6, 100, 0x7fffffffffffffffULL, 0xffffffffffffffffULL, 0x100000000ULL, 255, 0x8000000000000000ULL};
      mon::u64 u = c.r.chance(0.7) ? codes[c.r.below(9)] : c.r.next();
      if (u == (mon::u64)code_of(q.type)) u += 4;
      memcpy(&damaged[at + 64], &u, 8);
      if (c.r.chance(0.5)) name = "";
      c.what << "code " << u << " ";
    } else {
      if (name.empty()) { damaged[at] = 'z'; name = "y"; }
      else if (c.r.chance(0.5)) damaged[at + c.r.below(name.size())] ^= 1 << c.r.below(7);
      else memset(&damaged[at + name.size()], 'w', 64 - name.size());
      c.what << "name damaged ";
    }
    break;
  }
  }
  c.what << "mismatch " << kind << " record " << k << " " << show(q) << " asked as " << type_names[type] << " '" << show_bytes(name) << "'";
  c.ready();
  c.saw_what();
  if (damaged.size()) spit(m.path, damaged);
  told()->good = -1;
  mon::ChildEnd e = mon::run_child([&]() {
    sdf::InDataFile f(m.path);
    for (size_t j = 0; j < k; j++) if (load(f, m.q[j], "", 0).size()) _exit(MISREAD);
    told()->good = k;
    load_as(f, type, name);
  });
  must_stop(c, e, "mismatch");
  CHECK_MSG(c, told()->good == (long)k, "mismatch:earlier records", "read " << told()->good << " of " << k << " " << e.text());
}
// A name that fills its field is one of 64 bytes without end: read as such or refused, within bounds
FAMILY(P24, unterminated, 200, 4000) {
  Made m = make(c, 1, 1);
  std::string b = m.bytes;
  bool header = c.r.chance(0.3);
  size_t at = header ? 0 : m.end[0];
  std::string was = header ? b.substr(0, 6) : m.q[0].name;
  for (size_t i = was.size(); i < 64; i++) b[at + i] = 'a' + c.r.below(26);
  c.what << (header ? "header" : "record") << " name without end";
  c.ready();
  c.saw(b.substr(at, 64));
  spit(m.path, b);
  mon::ChildEnd e = read_child(m.path, m.q, 1, !header);
  mon::shared()->checks++;
  if (e.sanitizer || e.timeout || (e.returned && !header && was.size())) c.fail("unterminated", e.text());
}
// Nothing there
FAMILY(P24, missing, 120, 2000) {
  std::string path = fresh("f");
  int kind = c.r.below(9);
  bool shared = c.r.chance(0.5);
  std::string p = path;
  switch (kind) {
  case 0: break;
  case 1: case 4: p = mon::scratch_dir() + "/nowhere/f"; break;
  case 2: p = mon::scratch_dir(); break;
  case 3: spit(path, ""); break;
  case 5: spit(path, "x"); p = path + "/f"; break;
  case 6: break;  // the finished file cannot take its place
  case 7:         // nothing can be locked
    if (mkdir((path + ".lck").c_str(), 0700)) { perror("mkdir"); _exit(99); }
    break;
  default: p = mon::scratch_dir() + "/" + std::string(300, 'n'); break;
  }
  c.what << "missing " << kind << (shared ? " shared" : "");
  c.ready();
  c.saw_what();
  std::vector<Record> none;
  if (kind <= 3) must_stop(c, mon::run_child([&]() { sdf::InDataFile f(p); }, 20), "missing:read");
  else if (kind == 6) {
    Record q = any_record(c.r, false);
    told()->good = 0;
    must_stop(c, mon::run_child([&]() {
      { sdf::OutDataFile f(p, sdf::DataFile::SDF_PARANOID); dump(f, q); if (mkdir(p.c_str(), 0700)) _exit(99); if (shared) f.close(); }
      told()->good = 1;
    }, 20), "missing:place");
    CHECK_MSG(c, told()->good == 0, "missing:reported done", "the file could not be renamed");
    rmdir(p.c_str());
  } else if (kind == 7) {
    told()->good = 0;
    must_stop(c, mon::run_child([&]() {
      if (shared) { sdf::InDataFile f(p, sdf::DataFile::SDF_SHARED); } else { sdf::OutDataFile f(p, sdf::DataFile::SDF_SHARED); }
      told()->good = 1;
    }, 20), "missing:lock");
    rmdir((path + ".lck").c_str());
  } else {
    Record q = any_record(c.r, false);
    told()->good = 0;
    int mode = c.r.below(3);
    must_stop(c, mon::run_child([&]() { sdf::OutDataFile f(p, flag(mode)); dump(f, q); told()->good = 1; }, 20), "missing:write");
    CHECK_MSG(c, told()->good == 0, "missing:reported done", "mode " << mode);
  }
}
// The disk is full from some byte on
FAMILY(P24, full, 1000, 40000) {
  std::vector<Record> q;
  for (long n = c.r.in(1, 4); n-- > 0;) q.push_back(any_record(c.r, c.r.chance(0.3)));
  std::string whole = fresh("g");
  std::vector<size_t> end;
  bool had = c.r.chance(0.5);
  int mode = c.r.below(3);
  std::string path = fresh("f"), old;
  if (had) { { sdf::OutDataFile f(path, sdf::DataFile::SDF_OVERWRITE); f.dump(3.5, "old"); } old = slurp(path); }
  if (had && mode == 0) spit(whole, old);
  {
    sdf::OutDataFile f(whole, sdf::DataFile::SDF_SHARED);
    end.push_back(slurp(whole).size());
    for (size_t k = 0; k < q.size(); k++) { dump(f, q[k]); end.push_back(slurp(whole).size()); }
  }
  size_t limit = c.r.chance(0.3) ? end[c.r.below(end.size())] + c.r.in(-1, 1) : c.r.below(end.back() + 1);
  if (had && mode == 0 && limit < old.size()) limit = old.size();
  if (limit > end.back() - 1) limit = end.back() - 1;
  int where = c.r.chance(0.15) && !had ? 1 : 0;  // 1: the full device
  std::string target = path;
  if (where) { mode = 0; limit = 0; if (symlink("/dev/full", path.c_str())) { perror("symlink"); _exit(99); } }
  c.what << "full " << (where ? "device" : "") << " mode " << mode << " limit " << limit << " of " << end.back() << (had ? " over old" : "");
  for (size_t k = 0; k < q.size(); k++) c.what << ", " << show(q[k]);
  c.ready();
  c.saw_what();
  told()->good = -1;
  mon::ChildEnd e = mon::run_child([&]() {
    signal(SIGXFSZ, SIG_IGN);
    if (!where) { struct rlimit l = {limit, limit}; if (setrlimit(RLIMIT_FSIZE, &l)) _exit(99); }
    {
      sdf::OutDataFile f(path, flag(mode));
      told()->good = 0;
      for (size_t k = 0; k < q.size(); k++) { dump(f, q[k]); told()->good = k + 1; }
      f.close();
    }
  });
  must_stop(c, e, "full");
  long fit = -1;
  for (size_t k = 0; k < end.size(); k++) if (end[k] <= limit) fit = k;
  if (!where) CHECK_MSG(c, told()->good <= std::max(fit, 0L), "full:reported done", told()->good << " records reported, " << fit << " fit");
  if (mode == 2) CHECK_MSG(c, had ? slurp(path) == old : !exists(path), "full:careful write damaged the file", slurp(path).size() << " bytes");
  unlink(path.c_str());
}
MON_MAIN
