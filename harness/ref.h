// Reference models: plain column-major arrays with their own index arithmetic, and the
// narrow bridge to and from the library's types.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include "mon.h"
#include <tensor/tensor.h>
#include <tensor/sparse.h>

namespace ref {
using tensor::RTensor;
using tensor::CTensor;
using tensor::RSparse;
using tensor::CSparse;
using tensor::Indices;
using tensor::Booleans;
using tensor::cdouble;
using mon::Case;
typedef std::vector<long> Dims;
typedef std::complex<long double> cld;
const double EPS = 2.220446049250313e-16;

inline long total(const Dims &d) {
  long n = 1;
  for (size_t i = 0; i < d.size(); i++) n *= d[i];
  return d.empty() ? 0 : n;
}
inline std::string str(const Dims &d) {
  std::ostringstream o;
  o << '[';
  for (size_t i = 0; i < d.size(); i++) o << (i ? "," : "") << d[i];
  o << ']';
  return o.str();
}
// multi-index <-> column-major position
inline long pos(const Dims &d, const Dims &i) {
  long p = 0;
  for (size_t k = d.size(); k-- > 0;) p = p * d[k] + i[k];
  return p;
}
inline Dims unpos(const Dims &d, long p) {
  Dims i(d.size());
  for (size_t k = 0; k < d.size(); k++) { i[k] = p % d[k]; p /= d[k]; }
  return i;
}

template <class T> struct Arr {
  Dims d;
  std::vector<T> v;
  Arr() {}
  explicit Arr(const Dims &dd) : d(dd), v(total(dd)) {}
  long size() const { return v.size(); }
  int rank() const { return d.size(); }
  T &at(const Dims &i) { return v[pos(d, i)]; }
  const T &at(const Dims &i) const { return v[pos(d, i)]; }
  T &operator()(long i, long j) { return v[j * d[0] + i]; }
  const T &operator()(long i, long j) const { return v[j * d[0] + i]; }
};
typedef Arr<double> RA;
typedef Arr<cdouble> CA;

template <class T> struct TensorOf;
template <> struct TensorOf<double> { typedef RTensor type; typedef RSparse sparse; };
template <> struct TensorOf<cdouble> { typedef CTensor type; typedef CSparse sparse; };

inline Indices to_indices(const Dims &d) {
  Indices i(d.size());
  for (size_t k = 0; k < d.size(); k++) i.at(k) = d[k];
  return i;
}
inline Dims from_indices(const tensor::Vector<long> &i) {
  return Dims(i.begin_const(), i.end_const());
}
template <class T> typename TensorOf<T>::type to_tensor(const Arr<T> &a) {
  typename TensorOf<T>::type t(to_indices(a.d));
  if (a.size()) std::copy(a.v.begin(), a.v.end(), t.begin());
  return t;
}
template <class E> Arr<E> from_tensor(const tensor::Tensor<E> &t) {
  Arr<E> a;
  a.d = from_indices(t.dimensions());
  a.v.assign(t.begin_const(), t.end_const());
  return a;
}

// ---- comparison ------------------------------------------------------------
inline bool same(double a, double b) {  // identical values, any NaN equals any NaN, 0 != -0
  if (a != a || b != b) return a != a && b != b;
  return memcmp(&a, &b, sizeof a) == 0;
}
inline bool same(const cdouble &a, const cdouble &b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
inline bool same(long a, long b) { return a == b; }
inline bool same(bool a, bool b) { return a == b; }
template <class T> std::string show(const std::vector<T> &v, size_t max = 24) {
  std::ostringstream o;
  o.precision(17);
  o << '{';
  for (size_t i = 0; i < v.size() && i < max; i++) o << (i ? " " : "") << v[i];
  if (v.size() > max) o << " ...(" << v.size() << ")";
  o << '}';
  return o.str();
}
template <class T> std::string show(const Arr<T> &a) { return str(a.d) + show(a.v); }

template <class T> bool same(const Arr<T> &a, const Arr<T> &b) {
  if (a.d != b.d || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); i++)
    if (!same(a.v[i], b.v[i])) return false;
  return true;
}
// Numerically equal (0 == -0): for operations that may legitimately produce either zero.
inline bool equal0(double a, double b) { return a == b || (a != a && b != b); }
inline bool equal0(const cdouble &a, const cdouble &b) { return equal0(a.real(), b.real()) && equal0(a.imag(), b.imag()); }
template <class T> bool equal0(const Arr<T> &a, const Arr<T> &b) {
  if (a.d != b.d || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); i++)
    if (!equal0(a.v[i], b.v[i])) return false;
  return true;
}
template <class E> void expect_same(mon::Case &c, const tensor::Tensor<E> &got, const Arr<E> &want, const std::string &key) {
  Arr<E> g = from_tensor(got);
  CHECK_MSG(c, same(g, want), key, "got " << show(g) << " expected " << show(want));
}
template <class E> void expect_equal0(mon::Case &c, const tensor::Tensor<E> &got, const Arr<E> &want, const std::string &key) {
  Arr<E> g = from_tensor(got);
  CHECK_MSG(c, equal0(g, want), key, "got " << show(g) << " expected " << show(want));
}

// ---- generators --------------------------------------------------------------
enum Kind { INTS, REALS, SPECIAL, IDS, WIDE };
inline void gen(mon::Rng &r, Kind k, double &x) {
  static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 3.0, 1e308, -1e308, 5e-324, 2.2250738585072014e-308,
                              1e-160, 1e160, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                              std::numeric_limits<double>::quiet_NaN(), 4503599627370497.5, 0.49999999999999994, 1.5, -0.5};
  switch (k) {
  case INTS: x = r.in(-4, 4); break;
  case IDS: x = r.in(-1000000, 1000000); break;
  case REALS: x = r.chance(0.1) ? 0.0 : r.normal() * std::pow(10.0, r.in(-2, 2)); break;
  case SPECIAL: x = r.chance(0.6) ? sp[r.below(sizeof sp / sizeof *sp)] : r.normal() * 3; break;
  case WIDE: x = r.chance(0.1) ? 0.0 : r.normal() * std::pow(10.0, r.in(-40, 40)); break;
  }
}
inline void gen(mon::Rng &r, Kind k, cdouble &z) {
  double a, b;
  gen(r, k, a);
  gen(r, k, b);
  if (r.chance(0.15)) b = 0;
  z = cdouble(a, b);
}
template <class T> Arr<T> random_arr(mon::Rng &r, const Dims &d, Kind k) {
  Arr<T> a(d);
  for (size_t i = 0; i < a.v.size(); i++) gen(r, k, a.v[i]);
  return a;
}
// All entries distinct, so that a misplaced element is always visible.
inline void ident(long i, double &x) { x = i + 1; }
inline void ident(long i, cdouble &x) { x = cdouble(i + 1, -(i + 1) - 0.5); }
template <class T> Arr<T> distinct_arr(mon::Rng &r, const Dims &d) {
  Arr<T> a(d);
  long off = r.in(0, 50);
  for (size_t i = 0; i < a.v.size(); i++) ident(off + i, a.v[i]);
  // Moving elements must not care for their values: infinities, NaN, negative zeros among them
  if (a.v.size() && r.chance(0.15)) for (size_t k = r.in(1, 1 + a.v.size() / 3); k > 0; k--) gen(r, SPECIAL, a.v[r.below(a.v.size())]);
  return a;
}
// One dimension: small, with 0 and 1 and an occasional larger one.
inline long random_dim(mon::Rng &r, double p0 = 0.08, double pbig = 0.06) {
  double u = r.unit();
  if (u < p0) return 0;
  if (u < p0 + pbig) return r.in(5, 17);
  return r.in(1, 4);
}
// Tensors may have any number of indices, not only as many as the functions with one argument for each
inline int any_rank(mon::Rng &r, int lo, int hi) { return r.chance(0.015) ? r.in(hi + 1, 22) : r.in(lo, hi); }
inline Dims random_dims(mon::Rng &r, int rank, double p0 = 0.06, long maxsize = 4000) {
  Dims d(rank);
  if (rank > 7) {
    long n = 1;
    for (int i = 0; i < rank; i++) d[i] = r.chance(p0 / 10) ? 0 : 1;
    for (int k = r.in(0, 12); k > 0; k--) { long &x = d[r.below(rank)]; if (x == 1 && n * 3 <= maxsize) n *= x = r.in(2, 3); }
    return d;
  }
  // Now and then something much larger, for code that treats long extents in another way
  bool large = rank > 0 && r.chance(0.004);
  if (large) maxsize *= 12;
  for (;;) {
    for (int i = 0; i < rank; i++) d[i] = random_dim(r, large ? 0.0 : p0);
    if (large) for (int k = r.in(1, 2); k > 0; k--) d[r.below(rank)] = r.chance(0.35) ? 1L << r.in(4, 11) : r.in(12, r.chance(0.5) ? 70 : 2000);
    if (total(d) <= maxsize) return d;
    if (large) maxsize += maxsize / 50;
  }
}
// Rarely one index that exceeds 15 and 16 bits
inline Dims dims_or_vast(mon::Rng &r, int rank, double p0, long maxsize) {
  if (rank < 1 || rank > 6 || !r.chance(0.0008)) return random_dims(r, rank, p0, maxsize);
  Dims d(rank, 1);
  for (int k = r.in(0, 2); k > 0; k--) d[r.below(rank)] = r.in(1, 2);
  d[r.below(rank)] = r.chance(0.3) ? (1L << 15) + r.in(0, 2) : r.chance(0.3) ? (1L << 16) + r.in(0, 2) : r.in(33000, 90000);
  return d;
}
inline long neg(mon::Rng &r, long i, long n) { return r.chance(0.4) ? i - n : i; }  // sometimes the negative form

// ---- tolerance comparison ------------------------------------------------------
inline double absld(const cld &z) { return (double)std::abs(z); }
template <class E> bool near(const E &a, const cld &b, double tol) {
  cld d = cld(std::real(cdouble(a)), std::imag(cdouble(a))) - b;
  return std::abs(d) <= tol;
}
inline double mag(double x) { return std::fabs(x); }
inline double mag(const cdouble &x) { return std::abs(x); }
template <class T> double norm_inf_all(const Arr<T> &a) {
  double m = 0;
  for (size_t i = 0; i < a.v.size(); i++) m = std::max(m, mag(a.v[i]));
  return m;
}
template <class T> double norm_fro(const Arr<T> &a) {
  long double m = 0;
  for (size_t i = 0; i < a.v.size(); i++) m += (long double)mag(a.v[i]) * mag(a.v[i]);
  return std::sqrt((double)m);
}
inline double cj(double x) { return x; }
inline cdouble cj(const cdouble &x) { return std::conj(x); }
// naive dense algebra in long double, for residuals
typedef Arr<cld> LA;
template <class T> LA up(const Arr<T> &a) {
  LA o(a.d);
  for (size_t i = 0; i < a.v.size(); i++) { cdouble z(a.v[i]); o.v[i] = cld(z.real(), z.imag()); }
  return o;
}
inline LA mul(const LA &a, const LA &b) {
  LA o(Dims{a.d[0], b.d[1]});
  for (long j = 0; j < b.d[1]; j++)
    for (long k = 0; k < a.d[1]; k++) {
      cld x = b(k, j);
      if (x != cld(0))
        for (long i = 0; i < a.d[0]; i++) o(i, j) += a(i, k) * x;
    }
  return o;
}
inline LA adj(const LA &a) {
  LA o(Dims{a.d[1], a.d[0]});
  for (long j = 0; j < a.d[1]; j++) for (long i = 0; i < a.d[0]; i++) o(j, i) = std::conj(a(i, j));
  return o;
}
inline LA sub(const LA &a, const LA &b) {
  LA o(a.d);
  for (size_t i = 0; i < a.v.size(); i++) o.v[i] = a.v[i] - b.v[i];
  return o;
}
inline LA lident(long n) { LA o(Dims{n, n}); for (long i = 0; i < n; i++) o(i, i) = 1; return o; }
inline double fro(const LA &a) {
  long double s = 0;
  for (size_t i = 0; i < a.v.size(); i++) s += std::norm(a.v[i]);
  return (double)std::sqrt(s);
}
inline bool finite(double x) { return std::isfinite(x); }
inline bool finite(const cdouble &z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); }
template <class T> bool all_finite(const Arr<T> &a) {
  for (size_t i = 0; i < a.v.size(); i++) if (!finite(a.v[i])) return false;
  return true;
}
// ---- values with a rounding bound ----------------------------------------------
template <class A, class B> struct Res { typedef cdouble type; };
template <> struct Res<double, double> { typedef double type; };
inline cld ld(double x) { return cld(x, 0); }
inline cld ld(const cdouble &z) { return cld(z.real(), z.imag()); }

// A reference value with the sum of moduli that bounds its rounding error.
struct Val { cld v; long double m; long terms; Val() : v(0), m(0), terms(0) {} 
  void add(cld x) { v += x; m += std::abs(x); terms++; } };
typedef Arr<Val> VA;
inline double tol(const Val &x) { return (double)(x.m * (x.terms + 8) * EPS * 2) + 1e-300; }
template <class E> void expect_val(Case &c, const tensor::Tensor<E> &got, const VA &want, const std::string &key) {
  Arr<E> g = from_tensor(got);
  CHECK_MSG(c, g.d == want.d && g.size() == want.size(), key + ":dims", str(g.d) << " expected " << str(want.d));
  for (long i = 0; i < g.size(); i++)
    CHECK_MSG(c, near(g.v[i], want.v[i].v, tol(want.v[i])), key,
              "element " << i << " of " << str(g.d) << " is " << g.v[i] << " expected " << cdouble(want.v[i].v));
}
template <class E> void expect_num(Case &c, E got, const Val &want, const std::string &key) {
  CHECK_MSG(c, near(got, want.v, tol(want)), key, "got " << got << " expected " << cdouble(want.v));
}
template <class A> void unchanged(Case &c, const tensor::Tensor<A> &t, const Arr<A> &a, const std::string &key) {
  expect_same(c, t, a, key + ":operand modified");
}

}  // namespace ref
using mon::Case;
#endif
