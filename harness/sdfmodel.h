// Records of data files: generation, writing, reading back and comparing.
#ifndef VERIF_SDFMODEL_H
#define VERIF_SDFMODEL_H
#include "ref.h"
#include <tensor/sdf.h>
#include <fstream>
namespace sdfm {
using namespace ref;
enum Type { INT, SIZE, REAL, COMPLEX, RT, CT, RTV, CTV };
static const char *type_names[] = {"int", "size_t", "double", "cdouble", "RTensor", "CTensor", "vector<RTensor>", "vector<CTensor>"};
struct Record {
  Type type;
  std::string name;
  long i;           // INT, SIZE
  double x;
  cdouble z;
  std::vector<RA> r;
  std::vector<CA> c;
};
inline std::string show_bytes(const std::string &s) {
  std::ostringstream o;
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char ch = s[i];
    if (ch >= 32 && ch < 127) o << ch; else { char b[8]; snprintf(b, 8, "\\x%02x", ch); o << b; }
  }
  return o.str();
}
inline std::string show(const Record &q) {
  std::ostringstream o;
  o << type_names[q.type] << " '" << show_bytes(q.name) << "' ";
  switch (q.type) {
  case INT: case SIZE: o << q.i; break;
  case REAL: o << q.x; break;
  case COMPLEX: o << q.z; break;
  case RT: case RTV: for (size_t k = 0; k < q.r.size(); k++) o << str(q.r[k].d); break;
  default: for (size_t k = 0; k < q.c.size(); k++) o << str(q.c[k].d); break;
  }
  return o.str();
}
inline double any_double(mon::Rng &r) {
  if (r.chance(0.25)) {  // any bit pattern, signalling NaN excluded from nothing
    mon::u64 u = r.next();
    if (r.chance(0.3)) u |= 0x7ff0000000000000ULL;
    double d;
    memcpy(&d, &u, 8);
    return d;
  }
  double x;
  gen(r, SPECIAL, x);
  return x;
}
inline void fill(mon::Rng &r, double &x) { x = any_double(r); }
inline void fill(mon::Rng &r, cdouble &x) { x = cdouble(any_double(r), any_double(r)); }
template <class E> Arr<E> any_arr(mon::Rng &r, long most) {
  Dims d = r.chance(0.05) ? Dims() : random_dims(r, any_rank(r, 1, 6), 0.08, most);
  if (most > 1000 && r.chance(0.5)) d = Dims{r.in(500, most)};
  Arr<E> a(d);
  for (long i = 0; i < a.size(); i++) fill(r, a.v[i]);
  return a;
}
inline std::string any_name(mon::Rng &r) {
  static const char *plain[] = {"", "a", "x", "H", "psi", "name with spaces", "sdf481", "energy_0", "energy_1"};
  double u = r.unit();
  if (u < 0.5) return plain[r.below(9)];
  long n = u < 0.7 ? 63 : r.in(1, 63);
  std::string s;
  for (long i = 0; i < n; i++) s += u < 0.95 ? (char)r.in('a', 'z') : (char)r.in(1, 255);
  return s;
}
inline Record any_record(mon::Rng &r, bool big = true) {
  Record q;
  q.type = (Type)r.below(8);
  q.name = any_name(r);
  q.i = 0;
  q.x = 0;
  switch (q.type) {
  case INT: { static const int s[] = {0, 1, -1, 7, 2147483647, -2147483647 - 1}; q.i = r.chance(0.5) ? s[r.below(6)] : (int)r.next(); break; }
  case SIZE: q.i = r.chance(0.2) ? 0 : r.chance(0.3) ? 1L << r.in(0, 53) : (long)(r.next() >> r.in(11, 63)); break;
  case REAL: q.x = any_double(r); break;
  case COMPLEX: fill(r, q.z); break;
  case RT: q.r.push_back(any_arr<double>(r, big && r.chance(0.1) ? 20000 : 200)); break;
  case CT: q.c.push_back(any_arr<cdouble>(r, big && r.chance(0.1) ? 20000 : 200)); break;
  case RTV: for (long n = r.below(5); n-- > 0;) q.r.push_back(any_arr<double>(r, 60)); break;
  default: for (long n = r.below(5); n-- > 0;) q.c.push_back(any_arr<cdouble>(r, 60)); break;
  }
  return q;
}
inline void dump(sdf::OutDataFile &f, const Record &q) {
  switch (q.type) {
  case INT: f.dump((int)q.i, q.name); break;
  case SIZE: f.dump((size_t)q.i, q.name); break;
  case REAL: f.dump(q.x, q.name); break;
  case COMPLEX: f.dump(q.z, q.name); break;
  case RT: f.dump(to_tensor(q.r[0]), q.name); break;
  case CT: f.dump(to_tensor(q.c[0]), q.name); break;
  case RTV: { std::vector<RTensor> v; for (size_t k = 0; k < q.r.size(); k++) v.push_back(to_tensor(q.r[k])); f.dump(v, q.name); break; }
  default: { std::vector<CTensor> v; for (size_t k = 0; k < q.c.size(); k++) v.push_back(to_tensor(q.c[k])); f.dump(v, q.name); break; }
  }
}
template <class T> bool bits(const Arr<T> &a, const Arr<T> &b) {
  return a.d == b.d && a.v.size() == b.v.size() && (a.v.empty() || memcmp(&a.v[0], &b.v[0], a.v.size() * sizeof(T)) == 0);
}
// Load the next record as the type it was written with (or, as, another form of the same
// type code) and tell whether it is what was written.  Empty answer: it is.
inline std::string load(sdf::InDataFile &f, const Record &q, const std::string &name, int form) {
  std::ostringstream o;
  o.precision(17);
  switch (q.type) {
  case INT:
    if (form == 1) { double x = 3; f.load(&x, name); if (x != (double)q.i) o << "double " << x; }
    else { int v = 12345; f.load(&v, name); if (v != q.i) o << v; }
    break;
  case SIZE:
    if (form == 1) { double x = 3; f.load(&x, name); if (x != (double)q.i) o << "double " << x; }
    else { size_t v = 12345; f.load(&v, name); if ((long)v != q.i) o << v; }
    break;
  case REAL:
    if (form == 1) { RTensor t; f.load(&t, name); RA a = from_tensor(t); if (a.d != Dims{1} || memcmp(&a.v[0], &q.x, 8)) o << ref::show(a); }
    else { double x = 3; f.load(&x, name); if (memcmp(&x, &q.x, 8)) o << x; }
    break;
  case COMPLEX:
    if (form == 1) { CTensor t; f.load(&t, name); CA a = from_tensor(t); if (a.d != Dims{1} || memcmp(&a.v[0], &q.z, 16)) o << ref::show(a); }
    else { cdouble z = 3; f.load(&z, name); if (memcmp(&z, &q.z, 16)) o << z; }
    break;
  case RT: { RTensor t = RTensor::ones(2, 3); f.load(&t, name); RA a = from_tensor(t); if (!bits(a, q.r[0])) o << ref::show(a) << " expected " << ref::show(q.r[0]); break; }
  case CT: { CTensor t = CTensor::ones(2, 3); f.load(&t, name); CA a = from_tensor(t); if (!bits(a, q.c[0])) o << ref::show(a) << " expected " << ref::show(q.c[0]); break; }
  case RTV: {
    std::vector<RTensor> v(form * 3);
    f.load(&v, name);
    if (v.size() != q.r.size()) o << v.size() << " tensors";
    else for (size_t k = 0; k < v.size(); k++) if (!bits(from_tensor(v[k]), q.r[k])) o << "tensor " << k << ": " << ref::show(from_tensor(v[k])) << " expected " << ref::show(q.r[k]);
    break;
  }
  default: {
    std::vector<CTensor> v(form * 3);
    f.load(&v, name);
    if (v.size() != q.c.size()) o << v.size() << " tensors";
    else for (size_t k = 0; k < v.size(); k++) if (!bits(from_tensor(v[k]), q.c[k])) o << "tensor " << k << ": " << ref::show(from_tensor(v[k])) << " expected " << ref::show(q.c[k]);
    break;
  }
  }
  return o.str();
}
// 0 shared, 1 overwrite, 2 paranoid
inline int flag(int mode) { return mode == 0 ? sdf::DataFile::SDF_SHARED : mode == 1 ? sdf::DataFile::SDF_OVERWRITE : sdf::DataFile::SDF_PARANOID; }
inline bool exists(const std::string &p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
inline std::string slurp(const std::string &p) {
  std::ifstream f(p.c_str(), std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
inline void spit(const std::string &p, const std::string &s) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  size_t n = 0;
  while (fd >= 0 && n < s.size()) { ssize_t k = write(fd, s.data() + n, s.size() - n); if (k <= 0) break; n += k; }
  if (fd < 0 || n != s.size()) { perror("spit"); _exit(99); }
  close(fd);
}
}  // namespace sdfm
#endif
