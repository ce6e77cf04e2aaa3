// A catalogue of library calls with valid arguments.  Used to judge what every call must respect
// whatever it computes: its inputs stay as they are (P01), it releases what it takes and stays
// inside its memory (P02).
#ifndef VERIF_CALLS_H
#define VERIF_CALLS_H
#include "ref.h"
#include <tensor/fftw.h>
#include <tensor/linalg.h>
#include <tensor/arpack.h>
#include <tensor/io.h>
#include <tensor/map.h>
#include <tensor/rand.h>
#include <tensor/tools.h>
#include <deque>
#include <memory>

namespace calls {
using namespace ref;
using tensor::Vector;
using tensor::range;
using tensor::Map;

// bitwise snapshots
template <class E> struct Snap { Dims d; std::vector<E> v; };
template <class E> Snap<E> snap(const tensor::Tensor<E> &t) { Arr<E> a = from_tensor(t); return Snap<E>{a.d, a.v}; }
inline Snap<long> snap(const Vector<long> &v) { return Snap<long>{Dims{v.size()}, std::vector<long>(v.begin_const(), v.end_const())}; }
inline Snap<bool> snap(const Vector<bool> &v) { return Snap<bool>{Dims{v.size()}, std::vector<bool>(v.begin_const(), v.end_const())}; }
template <class E> struct SparseSnap { Snap<long> d, r, c; Snap<E> v; };
template <class E> SparseSnap<E> snap(const tensor::Sparse<E> &s) {
  return SparseSnap<E>{snap(s.priv_dims()), snap(s.priv_row_start()), snap(s.priv_column()), snap(s.priv_data())};
}
template <class E> bool eq(const Snap<E> &a, const Snap<E> &b) {
  if (a.d != b.d || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); i++) if (!same(a.v[i], b.v[i])) return false;
  return true;
}
template <class E> bool eq(const SparseSnap<E> &a, const SparseSnap<E> &b) { return eq(a.d, b.d) && eq(a.r, b.r) && eq(a.c, b.c) && eq(a.v, b.v); }
// overwriting
template <class E> void scribble(tensor::Tensor<E> &t) { for (long i = 0; i < t.size(); i++) t.at_seq(i) = E(-12345.75); }
inline void scribble(Indices &t) { for (long i = 0; i < t.size(); i++) t.at(i) = -777777; }
inline void scribble(Booleans &t) { for (long i = 0; i < t.size(); i++) t.at(i) = !t[i]; }
template <class E> void scribble(tensor::Sparse<E> &s) { s = tensor::Sparse<E>::eye(3); }

struct Held {
  virtual ~Held() {}
  virtual bool intact() const = 0;
  virtual void spoil() = 0;
};
template <class X> struct HeldOf : Held {
  X live;                      // what the library sees
  X spare;                     // another handle on the same elements
  decltype(snap(X())) was;
  explicit HeldOf(const X &x) : live(x), spare(live), was(snap(x)) {}
  bool intact() const { return eq(snap(live), was) && eq(snap(spare), was); }
  void spoil() { scribble(live); }
};

struct Args {
  Case &c;
  mon::Rng &r;
  bool hold;                   // keep handles, to be judged later (P01)
  bool small;                  // allow empty dimensions
  std::deque<std::unique_ptr<Held>> ins, outs;
  std::ostringstream text;
  Args(Case &cc, bool h, bool s) : c(cc), r(cc.r), hold(h), small(s) {}
  template <class X> const X &in(const X &x) {
    HeldOf<X> *h = new HeldOf<X>(x);
    ins.push_back(std::unique_ptr<Held>(h));
    return h->live;
  }
  template <class X> void out(const X &x) { if (hold) outs.push_back(std::unique_ptr<Held>(new HeldOf<X>(x))); }
  void out(double) {}
  void out(cdouble) {}
  long dim() { return small && r.chance(0.15) ? 0 : r.chance(0.2) ? 1 : r.in(1, 5); }
  long dim1() { return r.chance(0.2) ? 1 : r.in(1, 6); }
  Dims dims(int rank) { Dims d(rank); for (auto &x : d) x = dim(); return d; }
  Dims any_dims(int lo, int hi) { int k = any_rank(r, lo, hi); return k > 7 ? random_dims(r, k, small ? 0.3 : 0, 300) : dims(k); }
  Dims dims1(int rank) { Dims d(rank); for (auto &x : d) x = dim1(); return d; }
  Kind kind() { return r.chance(0.5) ? INTS : REALS; }
  template <class E> tensor::Tensor<E> make(const Dims &d) {
    text << (sizeof(E) > 8 ? "C" : "R") << str(d);
    return to_tensor(random_arr<E>(r, d, kind()));
  }
  template <class E> const tensor::Tensor<E> &t(const Dims &d) { return in(make<E>(d)); }
  template <class E> const tensor::Tensor<E> &t() { return t<E>(any_dims(1, 4)); }
  template <class E> const tensor::Tensor<E> &m() { return t<E>(dims(2)); }
  template <class E> tensor::Sparse<E> make_sparse(const Dims &d) {
    Arr<E> a = random_arr<E>(r, d, kind());
    for (auto &x : a.v) if (r.chance(0.5)) x = 0;
    text << "S" << str(d);
    return tensor::Sparse<E>(to_tensor(a));
  }
  template <class E> const tensor::Sparse<E> &s(const Dims &d) { return in(make_sparse<E>(d)); }
  template <class E> const tensor::Sparse<E> &s() { return s<E>(dims(2)); }
  // a well conditioned square matrix
  template <class E> tensor::Tensor<E> make_regular(long n, bool positive = false) {
    Arr<E> a = random_arr<E>(r, Dims{n, n}, REALS);
    double m = norm_inf_all(a) + 1;
    for (auto &x : a.v) x /= m;
    if (positive) {
      Arr<E> b(a.d);
      for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) b(i, j) = (a(i, j) + cj(a(j, i))) * 0.5;
      a = b;
    }
    for (long i = 0; i < n; i++) a(i, i) = cdouble_as<E>(std::real(cdouble(a(i, i)))) + E(2.0 * n + 1.0 + 3.0 * i);
    text << "regular" << n << (sizeof(E) > 8 ? "C" : "R");
    return to_tensor(a);
  }
  template <class E> static E cdouble_as(double x) { return E(x); }
  Indices indices(long n, long lo, long hi) {
    Indices i(n);
    for (long k = 0; k < n; k++) i.at(k) = r.in(lo, hi);
    return i;
  }
  const Indices &ix(long n, long lo, long hi) { return in(indices(n, lo, hi)); }
  Booleans bools(long n) { Booleans b(n); for (long k = 0; k < n; k++) b.at(k) = r.chance(0.5); return b; }
  const Booleans &bs(long n) { return in(bools(n)); }
  // an output argument: empty, of some size, or a copy of one of the inputs
  template <class E> tensor::Tensor<E> target(const tensor::Tensor<E> &like) {
    switch (r.below(3)) {
    case 0: return tensor::Tensor<E>();
    case 1: return to_tensor(random_arr<E>(r, Dims{r.in(1, 5), r.in(1, 5)}, INTS));
    }
    return like;
  }
  int axis(const tensor::Tensor<double> &t) { return r.below(t.rank()); }
  int axis(const tensor::Tensor<cdouble> &t) { return r.below(t.rank()); }
  int neg_axis(int a, int rank) { return r.chance(0.4) ? a - rank : a; }
};
typedef void (*Fn)(Args &);
struct Call { const char *name; Fn fn; };
inline std::vector<Call> &all() { static std::vector<Call> v; return v; }
struct RegCall { RegCall(const char *n, Fn f) { Call c = {n, f}; all().push_back(c); } };
#define CALL(name) \
  static void call_##name(Args &a); static RegCall rc_##name(#name, call_##name); static void call_##name(Args &a)
#define CALLT(name) \
  template <class E> static void call_##name(Args &a); \
  static RegCall rcr_##name(#name "/real", call_##name<double>); static RegCall rcc_##name(#name "/complex", call_##name<cdouble>); \
  template <class E> static void call_##name(Args &a)
#define TS typedef tensor::Tensor<E> T; (void)sizeof(T)

// ---- elementwise ---------------------------------------------------------------------------------
CALLT(binary) { TS; const T &x = a.t<E>(); Dims d = from_indices(x.dimensions()); const T &y = a.t<E>(d);
  switch (a.r.below(4)) { case 0: a.out(T(x + y)); break; case 1: a.out(T(x - y)); break; case 2: a.out(T(x * y)); break; default: a.out(T(x / y)); } }
CALLT(binary_self) { TS; const T &x = a.t<E>(); a.out(T(x + x)); a.out(T(x * x)); }
CALL(binary_mixed) { const RTensor &x = a.t<double>(); const CTensor &y = a.t<cdouble>(from_indices(x.dimensions()));
  switch (a.r.below(4)) { case 0: a.out(CTensor(x + y)); break; case 1: a.out(CTensor(y - x)); break; case 2: a.out(CTensor(x * y)); break; default: a.out(CTensor(y / x)); } }
CALLT(number) { TS; const T &x = a.t<E>(); E k; gen(a.r, REALS, k); k = k + 1.0;
  switch (a.r.below(8)) { case 0: a.out(T(x + k)); break; case 1: a.out(T(k + x)); break; case 2: a.out(T(x - k)); break; case 3: a.out(T(k - x)); break;
    case 4: a.out(T(x * k)); break; case 5: a.out(T(k * x)); break; case 6: a.out(T(x / k)); break; default: a.out(T(k / x)); } }
CALLT(negation) { TS; a.out(T(-a.t<E>())); }
CALLT(compound) { TS; const T &x = a.t<E>(); const T &y = a.t<E>(from_indices(x.dimensions())); T z = x;
  switch (a.r.below(4)) { case 0: z += y; break; case 1: z -= y; break; case 2: z *= y; break; default: z /= E(2.0); } a.out(z); }
CALLT(compound_self) { TS; const T &x = a.t<E>(); T z = x; z += x; a.out(z); }
CALL(math_real) { const RTensor &x = a.t<double>();
  switch (a.r.below(12)) { case 0: a.out(abs(x)); break; case 1: a.out(cos(x)); break; case 2: a.out(sin(x)); break; case 3: a.out(tan(x)); break; case 4: a.out(cosh(x)); break;
    case 5: a.out(sinh(x)); break; case 6: a.out(tanh(x)); break; case 7: a.out(exp(x)); break; case 8: a.out(sqrt(abs(x))); break; case 9: a.out(log(abs(x) + 1.0)); break;
    case 10: a.out(round(x)); break; default: a.out(RTensor(imag(x))); a.out(RTensor(real(x))); a.out(RTensor(conj(x))); } }
CALL(math_complex) { const CTensor &x = a.t<cdouble>();
  switch (a.r.below(12)) { case 0: a.out(abs(x)); break; case 1: a.out(cos(x)); break; case 2: a.out(sin(x)); break; case 3: a.out(tan(x)); break; case 4: a.out(cosh(x)); break;
    case 5: a.out(sinh(x)); break; case 6: a.out(tanh(x)); break; case 7: a.out(exp(x)); break; case 8: a.out(sqrt(x)); break; case 9: a.out(log(x + 10.0)); break;
    case 10: a.out(RTensor(real(x))); a.out(RTensor(imag(x))); break; default: a.out(CTensor(conj(x))); } }
CALL(to_complex) { const RTensor &x = a.t<double>(); const RTensor &y = a.t<double>(from_indices(x.dimensions()));
  a.out(CTensor(tensor::to_complex(x))); a.out(CTensor(tensor::to_complex(x, y))); a.out(CTensor(x)); a.out(CTensor(tensor::to_complex(tensor::to_complex(x)))); }
CALLT(equality) { TS; const T &x = a.t<E>(); const T &y = a.t<E>(from_indices(x.dimensions())); const Booleans b = x == y, e = x != y, f = x == E(1.0), g = E(1.0) != x;
  a.out(b); a.out(e); a.out(f); a.out(g); (void)all_equal(x, y); (void)all_equal(x, x); (void)some_unequal(x, y); (void)all_equal(x, E(1.0)); }
CALL(ordering) { const RTensor &x = a.t<double>(); const RTensor &y = a.t<double>(from_indices(x.dimensions())); Booleans l = x < y, g = x >= 0.5; a.out(l); a.out(g); Booleans n = !l, o = l || g, p = l && g; a.out(n); a.out(o); a.out(p); a.out(Indices(which(l))); (void)all_of(l); (void)any_of(l); (void)none_of(l); }
// ---- indices and booleans ------------------------------------------------------------------------------
CALL(indices) { long n = a.dim(); const Indices &i = a.ix(n, -3, 9), &j = a.ix(n, -3, 9); a.out(Indices(i << j)); a.out(Indices(sort(i))); a.out(Indices(sort(i, true))); a.out(Indices(sort_indices(i)));
  Booleans b = i == j, d = i < 3L, e = i >= j; a.out(b); a.out(d); a.out(e); (void)all_equal(i, j); (void)some_unequal(i, i); (void)i.total_size(); a.out(RTensor(index_to_tensor(i))); }
CALL(booleans) { long n = a.dim(); const Booleans &i = a.bs(n), &j = a.bs(n); Booleans k = i && j, l = i || j, m = !i; a.out(k); a.out(l); a.out(m); a.out(Indices(which(i))); (void)all_of(i); (void)any_of(j); }
CALL(iota) { long s = a.r.in(-3, 3), e = s + a.r.in(0, 8); a.out(Indices(tensor::iota(s, e, a.r.in(1, 3)))); long d1, d2, d3; const Indices &i = a.ix(4, 1, 5); surrounding_dimensions(i, a.r.below(4), &d1, &d2, &d3); }
// ---- shapes -----------------------------------------------------------------------------------------------
CALLT(reshape) { TS; const T &x = a.t<E>(); long n = x.size(); a.out(T(flatten(x))); a.out(T(reshape(x, n))); a.out(T(reshape(x, n, 1))); a.out(T(reshape(x, 1, n, 1))); a.out(T(reshape(x, x.dimensions()))); T y = x; y.reshape(to_indices(Dims{1, n})); a.out(y); a.out(T(to_indices(Dims{n}), x)); }
CALLT(squeeze) { TS; const T &x = a.t<E>(a.dims1(3)); a.out(T(squeeze(x))); }
CALLT(permute) { TS; const T &x = a.t<E>(a.any_dims(2, 4)); int n = x.rank(), i = a.r.below(n), j = a.r.below(n); a.out(T(permute(x, a.neg_axis(i, n), a.neg_axis(j, n)))); a.out(T(permute(x))); }
CALLT(transpose) { TS; const T &x = a.m<E>(); a.out(T(transpose(x))); a.out(T(adjoint(x))); }
CALLT(change_dimension) { TS; const T &x = a.t<E>(); int i = a.axis(x); a.out(T(change_dimension(x, i, a.dim()))); }
CALLT(slice) { TS; const T &x = a.t<E>(a.dims1(a.r.in(1, 3))); long d = x.dimension(0), p = a.r.below(d), q = a.r.in(p, d - 1); const Indices &ix = a.ix(a.r.in(1, 4), 0, d - 1);
  switch (x.rank()) {
  case 1: a.out(T(x(range(p, q)))); a.out(T(x(range(ix)))); a.out(T(x(range(p)))); a.out(T(x(range()))); break;
  case 2: a.out(T(x(range(p, q), range()))); a.out(T(x(range(ix), range(-1)))); a.out(T(x(range()))); break;
  default: a.out(T(x(range(p, q), range(), range(0)))); a.out(T(x(range(p, q, 2), range(), range(ix.size() ? 0 : 0)))); } }
CALLT(slice_write) { TS; const T &x = a.t<E>(a.dims1(a.r.in(1, 3))); T y = x; long d = x.dimension(0), p = a.r.below(d), q = a.r.in(p, d - 1); E k(3.0);
  switch (x.rank()) {
  case 1: { y.at(range(p, q)) = k; T z = y(range(p, q)); y.at(range(p, q)) = z; const T &v = a.t<E>(Dims{d}); y.at(range()) = v; y.at(range(p, q)) = v(range(p, q)); break; }
  case 2: { y.at(range(p), range()) = k; y.at(range(p, q), range(0)) = x(range(p, q), range(-1)); break; }
  default: y.at(range(p, q), range(), range(0)) = k; y.at(range(), range(), range(-1)) = x(range(), range(), range(0)); }
  a.out(y); }
// ---- contractions --------------------------------------------------------------------------------------------
template <class A, class B> static void fold_any(Args &a) {
  typedef tensor::Tensor<typename Res<A, B>::type> T;
  Dims da = a.any_dims(1, 3), db = a.any_dims(1, 3);
  int i = a.r.below(da.size()), j = a.r.below(db.size());
  da[i] = db[j] = a.dim1();
  const tensor::Tensor<A> &x = a.t<A>(da); const tensor::Tensor<B> &y = a.t<B>(db);
  a.out(T(fold(x, a.neg_axis(i, da.size()), y, j))); a.out(T(foldc(x, i, y, a.neg_axis(j, db.size()))));
  if (i == (int)da.size() - 1 && j == 0) a.out(T(mmult(x, y)));
}
CALL(fold_rr) { fold_any<double, double>(a); }
CALL(fold_cc) { fold_any<cdouble, cdouble>(a); }
CALL(fold_rc) { fold_any<double, cdouble>(a); }
CALL(fold_cr) { fold_any<cdouble, double>(a); }
CALLT(foldin) { TS; Dims da = a.any_dims(1, 3), db = a.any_dims(1, 3); int i = a.r.below(da.size()), j = a.r.below(db.size()); da[i] = db[j] = a.dim1(); const T &x = a.t<E>(da), &y = a.t<E>(db); a.out(T(foldin(x, i, y, j))); }
CALLT(fold_self) { TS; const T &x = a.t<E>(a.dims1(a.r.in(1, 3))); int i = a.axis(x); a.out(T(fold(x, i, x, i))); a.out(T(foldc(x, i, x, i))); }
CALL(fold_into) { Dims da = a.any_dims(1, 3), db = a.any_dims(1, 3); int i = a.r.below(da.size()), j = a.r.below(db.size()); da[i] = db[j] = a.dim1(); const RTensor &x = a.t<double>(da), &y = a.t<double>(db);
  RTensor o = a.target(x); fold_into(o, x, i, y, j); a.out(o); RTensor p = a.target(y); foldin_into(p, x, i, y, j); a.out(p); fold_into(o, x, i, y, j); }
CALL(mmult_into) { long n = a.dim1(); const RTensor &x = a.t<double>(Dims{a.dim(), n}), &y = a.t<double>(Dims{n, a.dim()}); RTensor o = a.target(x); mmult_into(o, x, y); a.out(o); }
CALLT(mmult) { TS; long n = a.dim1(); const T &x = a.t<E>(Dims{a.dim(), n}), &y = a.t<E>(Dims{n, a.dim()}), &v = a.t<E>(Dims{n}); a.out(T(mmult(x, y))); a.out(T(mmult(x, v))); a.out(T(mmult(v, y))); }
CALLT(kron) { TS; const T &x = a.m<E>(), &y = a.m<E>(); a.out(T(kron(x, y))); a.out(T(kron2(x, y))); const T &v = a.t<E>(Dims{a.dim1()}), &w = a.t<E>(Dims{a.dim1()}); a.out(T(kron(v, w))); }
CALLT(kron_sum) { TS; long n = a.dim1(), k = a.dim1(); const T &x = a.t<E>(Dims{n, n}), &y = a.t<E>(Dims{k, k}); a.out(T(kron2_sum(x, y))); }
CALLT(diag) { TS; long n = a.dim(); int w = a.r.in(-3, 3); const T &v = a.t<E>(Dims{n}); a.out(T(diag(v, w))); a.out(T(diag(v, w, n + std::max(0, -w), n + std::max(0, w)))); a.out(T(diag(v))); }
CALLT(take_diag) { TS; const T &x = a.t<E>(a.dims1(a.r.in(2, 4))); int n = x.rank(); int w = a.r.in(-(x.dimension(0) - 1), x.dimension(n - 1) - 1); a.out(T(take_diag(x, w))); T y = x; a.out(T(y.diag(w))); }
CALLT(trace) { TS; const T &x = a.m<E>(); a.out(trace(x)); const T &y = a.t<E>(a.dims(3)); int i = a.r.below(3), j = (i + 1 + a.r.below(2)) % 3; a.out(T(trace(y, i, j))); }
CALLT(scale) { TS; const T &x = a.t<E>(); int i = a.axis(x); const T &v = a.t<E>(Dims{x.dimension(i)}); a.out(T(scale(x, i, v))); T y = x; scale_inplace(y, i, v); a.out(y); const RTensor &w = a.t<double>(Dims{x.dimension(i)}); a.out(T(scale(x, i, w))); }
CALLT(sums) { TS; const T &x = a.t<E>(a.dims1(a.r.in(1, 3))); a.out(sum(x)); a.out(mean(x)); a.out(T(mean(x, a.axis(x)))); a.out(norm0(x)); a.out(norm2(x)); const T &y = a.t<E>(Dims{x.size()}); a.out(scprod(T(flatten(x)), y)); const T &m = a.t<E>(a.dims1(2)); a.out(matrix_norminf(m)); }
CALL(extremes) { const RTensor &x = a.t<double>(a.dims1(a.r.in(1, 3))); (void)min(x); (void)max(x); RTensor f = flatten(x); a.out(RTensor(sort(f))); a.out(RTensor(sort(f, true))); a.out(Indices(sort_indices(f))); }
CALL(linspace) { long n = a.dim1(); const RTensor &x = a.t<double>(Dims{n}), &y = a.t<double>(Dims{n}); a.out(RTensor(tensor::linspace(x, y, a.r.in(1, 7)))); a.out(RTensor(tensor::linspace(0.5, 2.0, a.r.in(1, 7)))); const CTensor &u = a.t<cdouble>(Dims{n}), &v = a.t<cdouble>(Dims{n}); a.out(CTensor(tensor::linspace(u, v, a.r.in(1, 7)))); a.out(CTensor(tensor::linspace(cdouble(0, 1), cdouble(2, 3), 4))); }
// ---- construction ------------------------------------------------------------------------------------------
CALLT(construct) { TS; const Indices &d = a.in(to_indices(a.dims(a.r.in(1, 6)))); a.out(T(T::zeros(d))); a.out(T(T::ones(d))); T x(d); x.fill_with(E(2.0)); a.out(x); a.out(T(T::random(d))); long n = a.dim(), k = a.dim(); a.out(T(T::eye(n, k))); a.out(T(T::eye(n))); a.out(T(T::zeros(n, k))); a.out(T(T::ones(n, k, 2))); a.out(T(T::random(n, k))); T empty; a.out(empty); T z = empty; a.out(z); }
CALLT(vectors) { TS; const T &x = a.t<E>(); Vector<E> v = x; T y(v); a.out(y); std::vector<E> s(x.begin(), x.end()); a.out(T(s)); Vector<E> w; w = v; w = w; v.resize(3); v.at(0) = v.at(1) = v.at(2) = E(1.0); T z(w); a.out(z); E raw[4] = {E(1.0), E(2.0), E(3.0), E(4.0)}; Vector<E> u(4, raw); T q(u); q.at(0) = E(9.0); Vector<E> o = q; }
CALL(generators) { RTensor x = tensor::rgen << 1.0 << 2.0 << 3.0; CTensor y = tensor::cgen << cdouble(1, 2) << cdouble(3, 4); Indices i = tensor::igen << 1 << 2; a.out(x); a.out(y); a.out(i); a.out(RTensor(tensor::rgen << 1.0 << 2.0 << 3.0 << 4.0, tensor::igen << 2 << 2)); }
CALLT(print) { TS; const T &x = a.t<E>(); std::ostringstream o; o << x; const T &m = a.m<E>(); o << matrix_form(m); const tensor::Sparse<E> &s = a.s<E>(); o << s << matrix_form(s) << a.ix(3, 0, 5); }
CALL(random) { (void)tensor::rand<double>(); (void)tensor::rand<int>(5); (void)tensor::rand<long>(-3, 7); (void)tensor::rand<cdouble>(); const RTensor &x = a.t<double>(); RTensor y = x; y.randomize(); a.out(y); tensor::set_seed(a.r.below(1000)); }
// ---- sparse -----------------------------------------------------------------------------------------------------
CALLT(sparse_build) { TS; typedef tensor::Sparse<E> S; const T &m = a.m<E>(); S s(m); a.out(s); a.out(T(full(s))); long n = a.dim(), R = a.dim1(), C = a.dim1(); const Indices &ri = a.ix(n, 0, R - 1), &ci = a.ix(n, 0, C - 1); const T &v = a.t<E>(Dims{n}); a.out(S(ri, ci, v, R, C)); a.out(S(ri, ci, v)); S q(a.dim(), a.dim()); a.out(q); a.out(S(S::eye(a.dim(), a.dim()))); a.out(S(S::random(a.dim(), a.dim()))); S e; q = e; q = s; q = q; a.out(q);
  a.out(S(a.in(to_indices(Dims{2, 3})), a.in(to_indices(Dims{0, 1, 3})), a.in(to_indices(Dims{2, 0, 1})), a.t<E>(Dims{3}))); }
CALLT(sparse_read) { typedef tensor::Sparse<E> S; const S &s = a.s<E>(a.dims1(2)); E x = s(a.r.below(s.rows()), -1); (void)x; Indices d = s.dimensions(), r = s.priv_row_start(), c = s.priv_column(); tensor::Tensor<E> v = s.priv_data(); a.out(d); a.out(r); a.out(c); a.out(v); (void)s.length(); (void)all_equal(s, s); (void)all_equal(s, full(s)); }
CALLT(sparse_binary) { typedef tensor::Sparse<E> S; const S &x = a.s<E>(); const S &y = a.s<E>(from_indices(x.dimensions())); a.out(S(x + y)); a.out(S(x - y)); a.out(S(x * y)); a.out(S(x + x)); (void)all_equal(x, y); }
CALL(sparse_mixed) { const CSparse &x = a.s<cdouble>(); const RSparse &y = a.s<double>(from_indices(x.dimensions())); a.out(CSparse(x + y)); a.out(CSparse(y - x)); a.out(CSparse(x * y)); a.out(CSparse(tensor::to_complex(y))); a.out(RSparse(real(x))); a.out(RSparse(imag(x))); a.out(CSparse(conj(x))); a.out(RSparse(real(y))); a.out(RSparse(imag(y))); a.out(CSparse(y)); }
CALLT(sparse_number) { typedef tensor::Sparse<E> S; const S &x = a.s<E>(); E k(2.5); a.out(S(x * k)); a.out(S(k * x)); a.out(S(x / k)); a.out(S(-x)); }
CALLT(sparse_shape) { typedef tensor::Sparse<E> S; const S &x = a.s<E>(); a.out(S(transpose(x))); a.out(S(adjoint(x))); const S &y = a.s<E>(); a.out(S(kron(x, y))); a.out(S(kron2(x, y))); long n = a.dim1(), k = a.dim1(); const S &p = a.s<E>(Dims{n, n}), &q = a.s<E>(Dims{k, k}); a.out(S(kron2_sum(p, q))); }
CALLT(sparse_mmult) { TS; typedef tensor::Sparse<E> S; const S &x = a.s<E>(); const T &v = a.t<E>(Dims{x.columns()}), &m = a.t<E>(Dims{x.columns(), a.dim()}), &w = a.t<E>(Dims{a.dim(), x.rows()}), &u = a.t<E>(Dims{x.rows()}); a.out(T(mmult(x, v))); a.out(T(mmult(x, m))); a.out(T(mmult(w, x))); a.out(T(mmult(u, x))); }
// ---- linear algebra -------------------------------------------------------------------------------------------------
CALLT(solve) { TS; long n = a.dim1(); const T &A = a.in(a.make_regular<E>(n)), &b = a.t<E>(Dims{n}), &B = a.t<E>(Dims{n, a.dim1()}); a.out(T(linalg::solve(A, b))); a.out(T(linalg::solve(A, B))); }
CALLT(solve_with_svd) { TS; const T &A = a.t<E>(a.dims1(2)); long n = A.rows(); const T &b = a.t<E>(Dims{n}), &B = a.t<E>(Dims{n, a.dim1()}); a.out(T(linalg::solve_with_svd(A, b, 1e-10))); a.out(T(linalg::solve_with_svd(A, B, 1e-10))); }
CALLT(cgs) { TS; typedef tensor::Sparse<E> S; long n = a.dim1(); const T &A = a.in(a.make_regular<E>(n, true)), &b = a.t<E>(Dims{n}), &x0 = a.t<E>(Dims{n}); const S &s = a.in(S(A)); a.out(T(linalg::cgs(A, b))); a.out(T(linalg::cgs(A, b, &x0, 20, 1e-8))); a.out(T(linalg::cgs(s, b))); a.out(T(linalg::cgs(s, b, &x0))); }
CALLT(svd) { TS; const T &A = a.t<E>(a.dims1(2)); T U = a.target(A), V = a.target(A); bool eco = a.r.chance(0.5); linalg::accurate_svd = a.r.chance(0.5); a.out(linalg::svd(A, &U, &V, eco)); a.out(U); a.out(V); a.out(linalg::svd(A)); T U2 = a.target(A); a.out(linalg::svd(A, &U2, 0, eco)); T V2 = a.target(A); a.out(linalg::svd(A, 0, &V2, eco)); }
CALLT(block_svd) { TS; Arr<E> m = random_arr<E>(a.r, Dims{a.dim1() + 1, a.dim1() + 1}, REALS); for (long i = 0; i < m.d[0]; i++) for (long j = 0; j < m.d[1]; j++) if ((i % 2) != (j % 2)) m(i, j) = 0; const T &A = a.in(to_tensor(m)); T U = a.target(A), V = a.target(A); a.out(linalg::block_svd(A, &U, &V, a.r.chance(0.5))); a.out(U); a.out(V); a.out(linalg::block_svd(A)); }
CALLT(eig) { TS; long n = a.dim1(); const T &A = a.in(a.make_regular<E>(n)); CTensor L, R; a.out(CTensor(linalg::eig(A, &R, &L))); a.out(L); a.out(R); a.out(CTensor(linalg::eig(A))); a.out(CTensor(linalg::eig(A, &R))); a.out(CTensor(linalg::eig(A, 0, &L))); }
CALL(eig_sym) { long n = a.dim1(); const RTensor &A = a.in(a.make_regular<double>(n, true)); RTensor R = a.target(A); a.out(linalg::eig_sym(A, &R)); a.out(R); a.out(linalg::eig_sym(A)); }
CALLT(eig_power) { TS; typedef tensor::Sparse<E> S; long n = a.dim1(); Arr<E> m(Dims{n, n}); for (long i = 0; i < n; i++) m(i, i) = E(1.0 + i * i * 2.0); const T &A = a.in(to_tensor(m)); const S &s = a.in(S(A)); T v = T::ones(Indices(to_indices(Dims{n}))); a.in(v); a.out(linalg::eig_power_right(A, &v, 0, 1e-6)); a.out(v); a.out(linalg::eig_power_left(A, &v, 0, 1e-6)); a.out(linalg::eig_power_right(s, &v, 0, 1e-6)); a.out(linalg::eig_power_left(s, &v, 0, 1e-6)); T w; a.out(linalg::eig_power_right(A, &w, 0, 1e-6)); a.out(w); }
CALLT(eigs) { TS; typedef tensor::Sparse<E> S; long n = a.r.chance(0.3) ? a.r.in(5, 24) : a.r.in(1, 12); const T &A = a.in(a.make_regular<E>(n, true)); const S &s = a.in(S(A)); long k = n <= 4 ? a.r.in(1, n) : a.r.in(1, n / 2); bool ok = false; T V;
  a.out(linalg::eigs(A, linalg::LargestMagnitude, k, &V, &ok)); a.out(V); a.out(linalg::eigs(s, linalg::LargestMagnitude, k)); T V2 = V; if (V2.rank() == 2) { a.in(V); a.out(linalg::eigs(A, linalg::LargestReal, k, &V2)); a.out(V2); } a.out(linalg::eigs(A, linalg::LargestReal, k)); }
CALLT(expm) { TS; long n = a.dim1(); const T &A = a.in(T(a.make_regular<E>(n) / E(8.0 * n))); a.out(T(linalg::expm(A))); a.out(T(linalg::expm(A, 9))); }
CALLT(maps) { TS; typedef tensor::Sparse<E> S; const T &A = a.t<E>(a.dims1(2)); const S &s = a.in(S(A)); const T &v = a.t<E>(Dims{A.columns()}), &u = a.t<E>(Dims{A.rows()}); std::unique_ptr<Map<T>> p(new tensor::MatrixMap<T>(A)), q(new tensor::MatrixMap<T>(A, true)), r(new tensor::MatrixMap<S>(s)), t(new tensor::MatrixMap<S>(s, true)); a.out(T((*p)(v))); a.out(T((*q)(u))); a.out(T((*r)(v))); a.out(T((*t)(u))); }
// ---- transforms ---------------------------------------------------------------------------------------------------------
CALL(fftw) { const CTensor &x = a.t<cdouble>(a.any_dims(1, 4)); int dir = a.r.chance(0.5) ? tensor::FFTW_FORWARD : tensor::FFTW_BACKWARD; a.out(CTensor(tensor::fftw(x, dir))); int i = a.axis(x); a.out(CTensor(tensor::fftw(x, (tensor::index)i, dir))); const Booleans &b = a.bs(x.rank()); a.out(CTensor(tensor::fftw(x, b, dir))); CTensor y = x; tensor::fftw_inplace(y, dir); a.out(y); CTensor z = x; tensor::fftw_inplace(z, (tensor::index)i, dir); a.out(z); CTensor w = x; tensor::fftw_inplace(w, b, dir); a.out(w); }
CALL(fftshift) { const CTensor &x = a.t<cdouble>(a.dims1(a.r.in(1, 4))); int dir = a.r.chance(0.5) ? tensor::FFTW_FORWARD : tensor::FFTW_BACKWARD; a.out(CTensor(tensor::fftshift(x, dir))); int i = a.axis(x); a.out(CTensor(tensor::fftshift(x, (tensor::index)i, dir))); const Booleans &b = a.bs(x.rank()); a.out(CTensor(tensor::fftshift(x, b, dir))); }
#undef TS
}  // namespace calls
#endif
