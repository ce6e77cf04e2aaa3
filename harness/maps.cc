// P27: operators built from matrices and functions.
#include "ref.h"
#include <tensor/map.h>
#include <tensor/linalg.h>
using namespace ref;
using tensor::Map;
using tensor::MatrixMap;
using tensor::FunctionMap;
using tensor::with_args;

template <class E> static typename TensorOf<E>::sparse sparse_of(const Arr<E> &a) { return typename TensorOf<E>::sparse(to_tensor(a)); }
template <class E> static VA product(const Arr<E> &a, const Arr<E> &b) {  // matrix or vector times matrix or vector
  long m = a.rank() == 1 ? 1 : a.d[0], k = a.rank() == 1 ? a.d[0] : a.d[1], n = b.rank() == 1 ? 1 : b.d[1];
  Dims d;
  if (a.rank() == 2) d.push_back(m);
  if (b.rank() == 2) d.push_back(n);
  VA o(d);
  for (long j = 0; j < n; j++) for (long i = 0; i < m; i++)
    for (long x = 0; x < k; x++) o.v[j * m + i].add(ld(a.v[x * m + i]) * ld(b.v[j * k + x]));
  return o;
}
template <class M, class E> static void use_map(Case &c, Map<tensor::Tensor<E> > *p, const Arr<E> &m, bool transposed, const std::string &key) {
  for (int t = 0; t < 2; t++) {
    long n = transposed ? m.d[0] : m.d[1];
    Dims d;
    bool vector = c.r.chance(0.5);
    long w = c.r.chance(0.03) ? c.r.in(5, 70) : c.r.in(1, 4);
    if (vector) d = Dims{n}; else d = transposed ? Dims{w, n} : Dims{n, w};
    Arr<E> x = random_arr<E>(c.r, d, c.r.chance(0.5) ? INTS : REALS);
    tensor::Tensor<E> tx = to_tensor(x), copy = tx;
    tensor::Tensor<E> y = (*p)(tx);
    expect_val(c, y, transposed ? product(x, m) : product(m, x), key + (transposed ? ":transposed" : ":straight"));
    unchanged(c, tx, x, key);
    unchanged(c, copy, x, key);
    if (y.size()) { y.at(0) = E(7); expect_val(c, (*p)(tx), transposed ? product(x, m) : product(m, x), key + ":after writing to the result"); }
  }
}
template <class E> static void matrix_map(Case &c, bool sparse) {
  typedef tensor::Tensor<E> T;
  typedef typename TensorOf<E>::sparse S;
  Dims d = Dims{random_dim(c.r, 0, 0.05), random_dim(c.r, 0, 0.05)};
  if (c.r.chance(0.02)) d[c.r.below(2)] = c.r.chance(0.3) ? 1L << c.r.in(4, 8) : c.r.in(18, 200);
  if (c.r.chance(0.5) && d[0] * d[0] < 5000) d[1] = d[0];
  Arr<E> m = random_arr<E>(c.r, d, c.r.chance(0.5) ? INTS : c.r.chance(0.15) ? WIDE : REALS);
  if (sparse || c.r.chance(0.3)) for (long i = 0; i < m.size(); i++) if (c.r.chance(0.6)) m.v[i] = 0;
  bool transposed = c.r.chance(0.5);
  int later = c.r.below(4);
  c.what << (sparse ? "sparse" : "dense") << " map " << str(d) << (transposed ? " transposed" : "") << " later " << later << show(m.v);
  c.ready();
  c.saw_what();
  if (!sparse) {
    T *t = new T(to_tensor(m));
    MatrixMap<T> *mm = transposed || c.r.chance(0.5) ? new MatrixMap<T>(*t, transposed) : new MatrixMap<T>(*t);
    Map<T> *p = mm;
    if (later == 1) t->fill_with(E(3));
    if (later == 2) *t *= E(2);
    if (later == 3) *t = T(2, 2);
    if (later) delete t;
    if (c.r.chance(0.3)) { Map<T> *q = new MatrixMap<T>(*mm); delete p; p = q; }
    use_map<T, E>(c, p, m, transposed, "dense map");
    if (!later) { unchanged(c, *t, m, "dense map"); delete t; }
    delete p;
  } else {
    S *t = new S(sparse_of(m));
    MatrixMap<S> *mm = transposed || c.r.chance(0.5) ? new MatrixMap<S>(*t, transposed) : new MatrixMap<S>(*t);
    Map<T> *p = mm;
    if (later == 1) *t = *t * E(3);
    if (later == 2) *t = S(2, 2);
    if (later == 3) *t = *t + *t;
    if (later) delete t;
    if (c.r.chance(0.3)) { Map<T> *q = new MatrixMap<S>(*mm); delete p; p = q; }
    use_map<S, E>(c, p, m, transposed, "sparse map");
    if (!later) delete t;
    delete p;
  }
  Map<T> identity;
  T t = to_tensor(m);
  expect_same(c, identity(t), m, "identity map");
}
FAMILY(P27, matrix, 40000, 1500000) {
  bool sparse = c.r.chance(0.5);
  if (c.r.chance(0.5)) matrix_map<double>(c, sparse); else matrix_map<cdouble>(c, sparse);
}
// Functions whose result tells all their arguments and their order apart
static std::string calls;
// the bound arguments of one function have one type, or types that convert into each other, so that a
// library that mixes them up still compiles and is judged by what it computes
static RTensor f1(const RTensor &x, double a) { return x * a; }
static RTensor f1s(const RTensor &x, const std::string &a) { return x * (double)a.size(); }
static RTensor f1e(const RTensor &x, const RSparse &e) { return mmult(e, x); }
static RTensor f2(const RTensor &x, const RTensor &a, const RTensor &b) { return x * b + a; }
static RTensor f3(RTensor x, double a, long b, float c) { return (x * a + (double)b) * (double)c; }
static RTensor f4(const RTensor &x, const RTensor &a, const RTensor &b, const RTensor &c, const RTensor &d) { return (x * a + b) * c - d; }
static RTensor f5(const RTensor &x, double a, double b, long c, int d, double e) { return (((x * a + b) * (double)c) - (double)d) * e; }
static CTensor g2(const CTensor &x, cdouble a, cdouble b) { return x * a + b; }
static CTensor g5(const CTensor &x, const CTensor &a, const CTensor &b, const CTensor &c, const CTensor &d, const CTensor &e) { return ((x * a + b) * c + d) * e; }
static double s3(int x, int a, int b, int c) { return ((x * 100 + a) * 100 + b) * 100 + c; }
static RTensor f4e(const RTensor &x, const RSparse &a, const RSparse &b, const RSparse &c, const RSparse &d) { return mmult(a, mmult(b, mmult(c, mmult(d, x)))); }
static std::string w5(std::string x, std::string a, std::string b, std::string c, std::string d, std::string e) { return x + a + b + c + d + e; }
template <class F, class T> static void through_map(Case &c, const F &f, const T &x, const T &want, const std::string &key) {
  FunctionMap<F, T> fm(f);
  const Map<T> &m = fm;
  T got = m(x);
  Arr<typename T::elt_t> w = from_tensor(want);
  expect_same(c, got, w, key + ":map");
  expect_same(c, f(x), w, key + ":call");
}
struct Functor {
  RTensor scale;
  RTensor operator()(const RTensor &x) const { return x * scale; }
};
static RTensor plain(const RTensor &x) { return x * 3.0; }
template <class T> static T rt(mon::Rng &r, long n) { return to_tensor(random_arr<typename T::elt_t>(r, Dims{n}, INTS)); }
FAMILY(P27, functions, 30000, 1200000) {
  mon::Rng &r = c.r;
  long n = r.in(1, 5);
  int kind = r.below(14);
  c.what << "function " << kind << " of " << n << " values";
  RTensor x = rt<RTensor>(r, n), a = rt<RTensor>(r, n), b = rt<RTensor>(r, n);
  CTensor z = rt<CTensor>(r, n), p = rt<CTensor>(r, n), q = rt<CTensor>(r, n);
  double u = r.in(-9, 9), v = r.in(-9, 9), w = r.in(-9, 9);
  cdouble k(r.in(-5, 5), r.in(-5, 5));
  int i = r.in(-9, 9), j = r.in(-9, 9), l = r.in(-9, 9);
  c.what << show(from_tensor(x)) << show(from_tensor(a)) << ' ' << u << ' ' << v << ' ' << w << ' ' << i;
  c.ready();
  c.saw_what();
  // arguments changed after binding do not matter
#define SPOIL a.fill_with(77.0); b = RTensor(1); d *= 2.0; e = a; p.fill_with(cdouble(5)); q *= 3.0; u = v = w = 99; i = j = l = 55; k = 4
  RTensor d = rt<RTensor>(r, n), e = rt<RTensor>(r, n);
  switch (kind) {
  case 0: { auto f = with_args(f1, u); RTensor want = f1(x, u); SPOIL; through_map(c, f, x, want, "one argument"); break; }
  case 1: { auto f = with_args(f2, a, b); RTensor want = f2(x, a, b); SPOIL; through_map(c, f, x, want, "two arguments"); break; }
  case 2: { auto f = with_args(f3, u, (long)i, (float)w); RTensor want = f3(x, u, i, w); SPOIL; through_map(c, f, x, want, "three arguments"); break; }
  case 3: { auto f = with_args(f4, a, b, d, e); RTensor want = f4(x, a, b, d, e); SPOIL; through_map(c, f, x, want, "four arguments"); break; }
  case 4: { auto f = with_args(f5, u, v, (long)i, j, w); RTensor want = f5(x, u, v, i, j, w); SPOIL; through_map(c, f, x, want, "five arguments"); break; }
  case 5: { auto f = with_args(g2, k, cdouble(u, v)); CTensor want = g2(z, k, cdouble(u, v)); SPOIL; through_map(c, f, z, want, "two complex arguments"); break; }
  case 6: {
    CTensor s = rt<CTensor>(r, n), t = rt<CTensor>(r, n), y = rt<CTensor>(r, n);
    auto f = with_args(g5, p, q, s, t, y);
    CTensor want = g5(z, p, q, s, t, y);
    SPOIL; s = t = y = p;
    through_map(c, f, z, want, "five complex arguments");
    break;
  }
  case 7: { auto f = with_args(s3, i, j, l); double want = s3(3, i, j, l); SPOIL; double got = f(3); CHECK_MSG(c, got == want, "three integers", got << " expected " << want); auto g = f; CHECK_MSG(c, g(3) == want, "copied closure", g(3)); break; }
  case 8: { Functor f; f.scale = a; RTensor want = x * a; through_map(c, f, x, want, "function object"); break; }
  case 9: { std::string s(r.below(20), 's'); auto f = with_args(f1s, s); RTensor want = f1s(x, s); s = "changed, and longer than it was before this"; through_map(c, f, x, want, "one string"); break; }
  case 10: {
    RSparse s = sparse_of(random_arr<double>(r, Dims{n, n}, INTS));
    auto f = with_args(f1e, s);
    RTensor want = f1e(x, s);
    s = RSparse(1, 1);
    through_map(c, f, x, want, "one sparse matrix");
    break;
  }
  case 11: {
    RSparse s[4], z;
    for (int m = 0; m < 4; m++) s[m] = sparse_of(random_arr<double>(r, Dims{n, n}, INTS));
    auto f = with_args(f4e, s[0], s[1], s[2], s[3]);
    RTensor want = f4e(x, s[0], s[1], s[2], s[3]);
    s[1] = s[2]; s[0] = s[3] = z;
    through_map(c, f, x, want, "four sparse matrices");
    break;
  }
  case 12: {
    std::string s[5], want = "x";
    for (int m = 0; m < 5; m++) { s[m] = std::string(r.below(30), 'a' + r.below(26)); want += s[m]; }
    auto f = with_args(w5, s[0], s[1], s[2], s[3], s[4]);
    for (int m = 0; m < 5; m++) s[m] = "changed";
    std::string got = f("x");
    CHECK_MSG(c, got == want, "five strings", got << " expected " << want);
    break;
  }
  default: {
    FunctionMap<RTensor(const RTensor &), RTensor> m(plain);
    expect_same(c, m(x), from_tensor(RTensor(x * 3.0)), "plain function");
    break;
  }
  }
}
MON_MAIN
