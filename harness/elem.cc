// P07 elementwise arithmetic, P08 comparisons and boolean / index vectors.
#include "ref.h"
using namespace ref;
using tensor::igen;
using tensor::bgen;

// ---- comparison of one element with its scalar result -----------------------
// Exact class for NaN and infinities and the sign of zero; finite values within
// `ulps` of the scalar result (of the modulus for complex ones).
static bool close1(double got, double want, double ulps, double scale) {
  if (same(got, want)) return true;
  if (!std::isfinite(got) || !std::isfinite(want)) return false;
  if (got == 0 && want == 0) return ulps > 0;  // both zero, opposite signs
  return std::fabs(got - want) <= ulps * EPS * scale + (ulps > 0 ? 5e-324 : 0);
}
static bool close(double got, double want, double ulps) { return close1(got, want, ulps, std::fabs(want)); }
static bool close(const cdouble &got, const cdouble &want, double ulps) {
  double s = std::max(std::fabs(want.real()), std::fabs(want.imag()));
  if (!std::isfinite(s)) s = 0;
  return close1(got.real(), want.real(), ulps, s) && close1(got.imag(), want.imag(), ulps, s);
}
template <class E> void expect_close(Case &c, const tensor::Tensor<E> &got, const Arr<E> &want, double ulps, const std::string &key) {
  Arr<E> g = from_tensor(got);
  CHECK_MSG(c, g.d == want.d && g.size() == want.size(), key + ":dims", str(g.d) << " expected " << str(want.d));
  for (long i = 0; i < g.size(); i++)
    CHECK_MSG(c, close(g.v[i], want.v[i], ulps), key, "element " << i << " is " << g.v[i] << " expected " << want.v[i]);
}
const double U = 0;   // sums and products of reals: exactly the scalar result
const double UC = 6;  // complex products and quotients, mathematical functions

template <class A, class B> void tt(Case &c, const Arr<A> &a, const Arr<B> &b) {
  typedef typename Res<A, B>::type R;
  tensor::Tensor<A> ta = to_tensor(a);
  tensor::Tensor<B> tb = to_tensor(b);
  Arr<R> w(a.d);
  long n = a.size();
  std::string k = "tt";
#define OP(op, name, u)                                     \
  for (long i = 0; i < n; i++) w.v[i] = a.v[i] op b.v[i];   \
  expect_close<R>(c, ta op tb, w, u, k + name);
  OP(+, "+", U) OP(-, "-", U) OP(*, "*", sizeof(R) == 8 ? 0 : UC) OP(/, "/", sizeof(R) == 8 ? 0 : UC)
#undef OP
  unchanged(c, ta, a, k);
  unchanged(c, tb, b, k);
}
template <class A, class B> void tn(Case &c, const Arr<A> &a, B b) {
  typedef typename Res<A, B>::type R;
  tensor::Tensor<A> ta = to_tensor(a);
  Arr<R> w(a.d);
  long n = a.size();
#define OP(op, name, u)                                  \
  for (long i = 0; i < n; i++) w.v[i] = a.v[i] op b;     \
  expect_close<R>(c, ta op b, w, u, "tn" name);          \
  for (long i = 0; i < n; i++) w.v[i] = b op a.v[i];     \
  expect_close<R>(c, b op ta, w, u, "nt" name);
  OP(+, "+", U) OP(-, "-", U) OP(*, "*", sizeof(R) == 8 ? 0 : UC) OP(/, "/", sizeof(R) == 8 ? 0 : UC)
#undef OP
  unchanged(c, ta, a, "tn");
}
// compound assignment, with and without another handle on the target
template <class A, class B> void compound(Case &c, const Arr<A> &a, const Arr<B> &b, B num) {
  typedef tensor::Tensor<A> TA;
  tensor::Tensor<B> tb = to_tensor(b);
  long n = a.size();
  double u = sizeof(A) == 8 ? 0 : UC;
  Arr<A> w(a.d);
#define OP(op, name, uu)                                            \
  for (int sh = 0; sh < 2; sh++) {                                  \
    TA t = to_tensor(a), other;                                     \
    if (sh) other = t;                                              \
    for (long i = 0; i < n; i++) { w.v[i] = a.v[i]; w.v[i] op b.v[i]; } \
    TA *ret = &(t op tb);                                           \
    CHECK_MSG(c, ret == &t, "compound" name ":returns its target", ""); \
    expect_close<A>(c, t, w, uu, "compound" name);                  \
    if (sh) unchanged(c, other, a, "compound" name);                \
    unchanged(c, tb, b, "compound" name);                           \
    t = to_tensor(a);                                               \
    if (sh) other = t;                                              \
    for (long i = 0; i < n; i++) { w.v[i] = a.v[i]; w.v[i] op num; }\
    t op num;                                                       \
    expect_close<A>(c, t, w, uu, "compound number" name);           \
    if (sh) unchanged(c, other, a, "compound number" name);         \
  }
  OP(+=, "+=", U) OP(-=, "-=", U) OP(*=, "*=", u) OP(/=, "/=", u)
#undef OP
}
// operands that are the same object, share storage, or are elements of the target
template <class E> void alias(Case &c, const Arr<E> &a) {
  typedef tensor::Tensor<E> T;
  long n = a.size();
  double u = sizeof(E) == 8 ? 0 : UC;
  Arr<E> w(a.d);
  long p = n ? c.r.below(n) : 0;
#define OP(op, name, uu)                                                     \
  {                                                                          \
    for (long i = 0; i < n; i++) w.v[i] = a.v[i] op a.v[i];                  \
    T t = to_tensor(a), t2 = t;                                              \
    expect_close<E>(c, t op t, w, uu, "alias t" name "t");                   \
    expect_close<E>(c, t op t2, w, uu, "alias t" name "copy");               \
    t op## = t;                                                              \
    expect_close<E>(c, t, w, uu, "alias t" name "=t shared");                \
    unchanged(c, t2, a, "alias t" name "=t shared");                         \
    T t3 = to_tensor(a);                                                     \
    t3 op## = t3;                                                            \
    expect_close<E>(c, t3, w, uu, "alias t" name "=t");                      \
    T t4 = to_tensor(a), t5 = t4;                                            \
    t4 op## = t5;                                                            \
    expect_close<E>(c, t4, w, uu, "alias t" name "=copy");                   \
    unchanged(c, t5, a, "alias t" name "=copy");                             \
    T t6 = to_tensor(a);                                                     \
    t6 = t6 op t6;                                                           \
    expect_close<E>(c, t6, w, uu, "alias t=t" name "t");                     \
    if (n) {                                                                 \
      for (long i = 0; i < n; i++) w.v[i] = a.v[i] op a.v[p];                \
      T t7 = to_tensor(a);                                                   \
      expect_close<E>(c, t7 op t7[p], w, uu, "alias t" name "t[p]");         \
      if (c.r.chance(0.5)) { T t8 = t7; t7 op## = t7[p]; unchanged(c, t8, a, "alias t" name "=t[p]"); } \
      else t7 op## = t7[p];                                                  \
      expect_close<E>(c, t7, w, uu, "alias t" name "=t[p]");                 \
    }                                                                        \
  }
  OP(+, "+", U) OP(-, "-", U) OP(*, "*", u) OP(/, "/", u)
#undef OP
  T t = to_tensor(a), t2 = t;
  t = -t;
  for (long i = 0; i < n; i++) w.v[i] = -a.v[i];
  expect_close<E>(c, t, w, 0, "negation");
  unchanged(c, t2, a, "negation");
}
static Kind kind(Case &c) { static const Kind k[] = {SPECIAL, SPECIAL, REALS, INTS}; return k[c.r.below(4)]; }
template <class E> Arr<E> elements(Case &c, const Dims &d) { return random_arr<E>(c.r, d, kind(c)); }
static Dims elem_dims(Case &c) {
  if (c.r.chance(0.002)) return Dims{c.r.in(4000, 40000)};
  return c.r.chance(0.05) ? Dims{c.r.in(100, 900)} : random_dims(c.r, any_rank(c.r, 1, 5), 0.05, 300);
}

FAMILY(P07, binary, 30000, 2000000) {
  Dims d = elem_dims(c);
  RA ra = elements<double>(c, d), rb = elements<double>(c, d);
  CA ca = elements<cdouble>(c, d), cb = elements<cdouble>(c, d);
  int which = c.r.below(4);
  c.what << "tensors " << str(d) << " types " << which << " a=" << show(ra.v, 4) << show(ca.v, 4) << " b=" << show(rb.v, 4) << show(cb.v, 4);
  c.ready();
  c.saw_what();
  switch (which) {
  case 0: tt(c, ra, rb); break;
  case 1: tt(c, ca, cb); break;
  case 2: tt(c, ra, cb); break;
  case 3: tt(c, ca, rb); break;
  }
}
FAMILY(P07, number, 30000, 2000000) {
  Dims d = elem_dims(c);
  RA ra = elements<double>(c, d);
  CA ca = elements<cdouble>(c, d);
  double x;
  cdouble z;
  gen(c.r, kind(c), x);
  gen(c.r, kind(c), z);
  int which = c.r.below(4);
  c.what << "tensor " << str(d) << " types " << which << " numbers " << x << " " << z << " a=" << show(ra.v, 4) << show(ca.v, 4);
  c.ready();
  c.saw_what();
  switch (which) {
  case 0: tn(c, ra, x); break;
  case 1: tn(c, ca, z); break;
  case 2: tn(c, ra, z); break;
  case 3: tn(c, ca, x); break;
  }
}
FAMILY(P07, compound, 20000, 1500000) {
  Dims d = elem_dims(c);
  RA ra = elements<double>(c, d), rb = elements<double>(c, d);
  CA ca = elements<cdouble>(c, d), cb = elements<cdouble>(c, d);
  double x;
  cdouble z;
  gen(c.r, kind(c), x);
  gen(c.r, kind(c), z);
  int which = c.r.below(3);
  c.what << "target " << str(d) << " types " << which << " numbers " << x << " " << z << " a=" << show(ra.v, 4) << show(ca.v, 4) << " b=" << show(rb.v, 4) << show(cb.v, 4);
  c.ready();
  c.saw_what();
  switch (which) {
  case 0: compound(c, ra, rb, x); break;
  case 1: compound(c, ca, cb, z); break;
  case 2: compound(c, ca, rb, x); break;
  }
}
FAMILY(P07, alias, 20000, 1500000) {
  Dims d = elem_dims(c);
  RA ra = elements<double>(c, d);
  CA ca = elements<cdouble>(c, d);
  bool z = c.r.chance(0.5);
  c.what << "tensor " << str(d) << (z ? show(ca.v, 4) : show(ra.v, 4));
  c.ready();
  c.saw_what();
  if (z) alias(c, ca); else alias(c, ra);
}

FAMILY(P07, functions, 20000, 1500000) {
  Dims d = elem_dims(c);
  RA a = elements<double>(c, d), w(d), b = elements<double>(c, d);
  if (c.r.chance(0.3))
    for (size_t i = 0; i < a.v.size(); i++) {  // halves and large integers, for round
      a.v[i] = c.r.in(-9, 9) * 0.5;
      if (c.r.chance(0.2)) a.v[i] = std::nextafter(a.v[i], c.r.chance(0.5) ? 1e9 : -1e9);
      if (c.r.chance(0.1)) a.v[i] = std::ldexp(1.0 + c.r.unit(), c.r.in(40, 60));
    }
  CA z = elements<cdouble>(c, d), wz(d);
  c.what << str(d) << " a=" << show(a.v, 4) << " z=" << show(z.v, 4);
  c.ready();
  c.saw_what();
  RTensor ta = to_tensor(a), tb = to_tensor(b);
  CTensor tz = to_tensor(z);
  long n = a.size();
#define F(f, u)                                            \
  for (long i = 0; i < n; i++) w.v[i] = std::f(a.v[i]);    \
  expect_close<double>(c, tensor::f(ta), w, u, #f);
#define G(f)                                               \
  F(f, 2)                                                  \
  for (long i = 0; i < n; i++) wz.v[i] = std::f(z.v[i]);   \
  expect_close<cdouble>(c, tensor::f(tz), wz, UC, #f "(complex)");
  G(cos) G(sin) G(tan) G(cosh) G(sinh) G(tanh) G(exp) G(sqrt) G(log)
  F(abs, 0) F(round, 0)
  for (long i = 0; i < n; i++) w.v[i] = std::abs(z.v[i]);
  expect_close<double>(c, tensor::abs(tz), w, 2, "abs(complex)");
  for (long i = 0; i < n; i++) { w.v[i] = z.v[i].real(); }
  expect_close<double>(c, tensor::real(tz), w, 0, "real");
  for (long i = 0; i < n; i++) { w.v[i] = z.v[i].imag(); }
  expect_close<double>(c, tensor::imag(tz), w, 0, "imag");
  for (long i = 0; i < n; i++) { wz.v[i] = std::conj(z.v[i]); }
  expect_close<cdouble>(c, tensor::conj(tz), wz, 0, "conj");
  for (long i = 0; i < n; i++) wz.v[i] = cdouble(a.v[i], 0);
  expect_close<cdouble>(c, tensor::to_complex(ta), wz, 0, "to_complex");
  expect_close<cdouble>(c, CTensor(ta), wz, 0, "CTensor(real)");
  CTensor assigned;
  assigned = ta;
  expect_close<cdouble>(c, assigned, wz, 0, "complex = real");
  for (long i = 0; i < n; i++) wz.v[i] = cdouble(a.v[i], b.v[i]);
  expect_close<cdouble>(c, tensor::to_complex(ta, tb), wz, 0, "to_complex(re,im)");
  expect_same(c, tensor::real(ta), a, "real(real)");
  expect_same(c, tensor::conj(ta), a, "conj(real)");
  expect_same(c, tensor::to_complex(tz), z, "to_complex(complex)");
  std::fill(w.v.begin(), w.v.end(), 0.0);
  expect_close<double>(c, tensor::imag(ta), w, 0, "imag(real)");
  for (long i = 0; i < n; i++) { w.v[i] = -a.v[i]; wz.v[i] = -z.v[i]; }
  expect_close<double>(c, -ta, w, 0, "negation");
  expect_close<cdouble>(c, -tz, wz, 0, "negation(complex)");
  unchanged(c, ta, a, "functions");
  unchanged(c, tb, b, "functions");
  unchanged(c, tz, z, "functions");
}

// ---------------------------------------------------------------- P08
typedef std::vector<bool> Bits;
static Bits bits(const tensor::Booleans &b) { return Bits(b.begin_const(), b.end_const()); }
static tensor::Booleans to_booleans(const Bits &b) {
  tensor::Booleans o(b.size());
  for (size_t i = 0; i < b.size(); i++) o.at(i) = b[i];
  return o;
}
static std::string show(const Bits &b) {
  std::string s;
  for (size_t i = 0; i < b.size(); i++) s += b[i] ? '1' : '0';
  return s;
}
static void expect_bits(Case &c, const tensor::Booleans &got, const Bits &want, const std::string &key) {
  Bits g = bits(got);
  CHECK_MSG(c, g == want, key, "got " << show(g) << " expected " << show(want));
}
// quantifiers over the comparison against the positions
static void quantifiers(Case &c, const tensor::Booleans &b, const Bits &w, const std::string &key) {
  long n = std::count(w.begin(), w.end(), true);
  CHECK_MSG(c, tensor::all_of(b) == (n == (long)w.size()), key + ":all_of", show(w));
  CHECK_MSG(c, tensor::any_of(b) == (n > 0), key + ":any_of", show(w));
  CHECK_MSG(c, tensor::none_of(b) == (n == 0), key + ":none_of", show(w));
  Dims p;
  for (size_t i = 0; i < w.size(); i++) if (w[i]) p.push_back(i);
  Dims got = from_indices(tensor::which(b));
  CHECK_MSG(c, got == p, key + ":which", "got " << str(got) << " for " << show(w));
}
// cmp(x, y): element comparison; tensors and numbers in the written order
#define COMPARE(cc, opname, op, A, B, a, b, n)                              \
  {                                                                         \
    Bits w_(n);                                                             \
    for (long i = 0; i < (long)(n); i++) w_[i] = (A) op (B);                \
    tensor::Booleans r_ = (a) op (b);                                       \
    expect_bits(cc, r_, w_, opname);                                        \
    quantifiers(cc, r_, w_, opname);                                        \
  }
template <class E> Arr<E> near_copy(Case &c, const Arr<E> &a) {  // equal in most places
  Arr<E> b = a;
  if (c.r.chance(0.3) || !a.size()) return b;
  for (int k = c.r.in(1, 3); k--;) gen(c.r, SPECIAL, b.v[c.r.below(b.size())]);
  return b;
}
FAMILY(P08, tensors, 40000, 2500000) {
  Dims d = elem_dims(c);
  RA a = random_arr<double>(c.r, d, c.r.chance(0.5) ? INTS : SPECIAL);
  RA b = c.r.chance(0.5) ? near_copy(c, a) : random_arr<double>(c.r, d, c.r.chance(0.5) ? INTS : SPECIAL);
  double x;
  gen(c.r, c.r.chance(0.5) ? INTS : SPECIAL, x);
  if (a.size() && c.r.chance(0.3)) { x = a.v[c.r.below(a.size())]; }
  if (c.r.chance(0.15)) std::fill(a.v.begin(), a.v.end(), x);
  c.what << "real " << str(d) << show(a.v, 4) << " " << show(b.v, 4) << " number " << x;
  c.ready();
  c.saw_what();
  RTensor ta = to_tensor(a), tb = to_tensor(b);
  long n = a.size();
#define ALL6(cc, nm, A, B, x, y, n)                                                             \
  COMPARE(cc, nm "==", ==, A, B, x, y, n) COMPARE(cc, nm "!=", !=, A, B, x, y, n)               \
  COMPARE(cc, nm "<", <, A, B, x, y, n) COMPARE(cc, nm "<=", <=, A, B, x, y, n)                 \
  COMPARE(cc, nm ">", >, A, B, x, y, n) COMPARE(cc, nm ">=", >=, A, B, x, y, n)
  ALL6(c, "tt", a.v[i], b.v[i], ta, tb, n)
  ALL6(c, "tn", a.v[i], x, ta, x, n)
  ALL6(c, "nt", x, a.v[i], x, ta, n)
  bool eq = true, eqx = true;
  for (long i = 0; i < n; i++) { eq = eq && a.v[i] == b.v[i]; eqx = eqx && a.v[i] == x; }
  CHECK_MSG(c, tensor::all_equal(ta, tb) == eq, "all_equal", eq);
  CHECK_MSG(c, tensor::some_unequal(ta, tb) == !eq, "some_unequal", eq);
  CHECK_MSG(c, tensor::all_equal(ta, x) == eqx, "all_equal(t,n)", eqx);
  CHECK_MSG(c, tensor::all_equal(x, ta) == eqx, "all_equal(n,t)", eqx);
  CHECK_MSG(c, tensor::some_unequal(ta, x) == !eqx, "some_unequal(t,n)", eqx);
  CHECK_MSG(c, tensor::some_unequal(x, ta) == !eqx, "some_unequal(n,t)", eqx);
  // tensors of other dimensions are never all equal
  Dims d2 = d;
  if (c.r.chance(0.5)) d2.push_back(1); else d2[c.r.below(d2.size())]++;
  RTensor t2 = RTensor::zeros(to_indices(d2));
  CHECK_MSG(c, !tensor::all_equal(ta, t2) && tensor::some_unequal(ta, t2), "all_equal of other dimensions", str(d2));
  expect_same(c, ta, a, "operand");
  expect_same(c, tb, b, "operand");
}
FAMILY(P08, complex, 25000, 1500000) {
  Dims d = elem_dims(c);
  CA a = random_arr<cdouble>(c.r, d, c.r.chance(0.5) ? INTS : SPECIAL);
  CA b = c.r.chance(0.5) ? near_copy(c, a) : random_arr<cdouble>(c.r, d, INTS);
  if (a.size() && c.r.chance(0.3)) {  // differ in one part only
    long p = c.r.below(a.size());
    b.v[p] = c.r.chance(0.5) ? cdouble(a.v[p].real(), 7) : cdouble(7, a.v[p].imag());
  }
  cdouble x;
  gen(c.r, c.r.chance(0.5) ? INTS : SPECIAL, x);
  if (a.size() && c.r.chance(0.4)) x = a.v[c.r.below(a.size())];
  if (c.r.chance(0.15)) std::fill(a.v.begin(), a.v.end(), x);
  c.what << "complex " << str(d) << ref::show(a.v, 4) << " " << ref::show(b.v, 4) << " number " << x;
  c.ready();
  c.saw_what();
  CTensor ta = to_tensor(a), tb = to_tensor(b);
  long n = a.size();
#define ALL2(nm, A, B, x, y) COMPARE(c, nm "==", ==, A, B, x, y, n) COMPARE(c, nm "!=", !=, A, B, x, y, n)
  ALL2("tt", a.v[i], b.v[i], ta, tb)
  ALL2("tn", a.v[i], x, ta, x)
  ALL2("nt", x, a.v[i], x, ta)
  bool eq = true, eqx = true;
  for (long i = 0; i < n; i++) { eq = eq && a.v[i] == b.v[i]; eqx = eqx && a.v[i] == x; }
  CHECK_MSG(c, tensor::all_equal(ta, tb) == eq, "all_equal", eq);
  CHECK_MSG(c, tensor::some_unequal(ta, tb) == !eq, "some_unequal", eq);
  CHECK_MSG(c, tensor::all_equal(ta, x) == eqx, "all_equal(t,n)", eqx);
  CHECK_MSG(c, tensor::all_equal(x, ta) == eqx, "all_equal(n,t)", eqx);
  Dims d2 = d;
  if (c.r.chance(0.5)) d2.push_back(1); else d2[c.r.below(d2.size())]++;
  CTensor t2 = CTensor::zeros(to_indices(d2));
  CHECK_MSG(c, !tensor::all_equal(ta, t2) && tensor::some_unequal(ta, t2), "all_equal of other dimensions", str(d2));
  expect_same(c, ta, a, "operand");
  expect_same(c, tb, b, "operand");
}
// Lengths of vectors: mostly short, some around powers of two, a few long
static long length(Case &c, long few) {
  if (c.r.chance(0.1)) return 0;
  if (!c.r.chance(0.04)) return c.r.in(1, few);
  if (c.r.chance(0.6)) return (1L << c.r.in(3, 12)) + c.r.in(-2, 2);
  return c.r.chance(0.85) ? c.r.in(1, 3000) : c.r.in(1, 70000);
}
static Dims head(const Dims &d) { return Dims(d.begin(), d.begin() + std::min<size_t>(d.size(), 12)); }
FAMILY(P08, indices, 40000, 2500000) {
  int n = length(c, 12);
  long span = c.r.chance(0.8) ? 3 : 4000000000000000000L;
  Dims a(n), b(n);
  for (int i = 0; i < n; i++) { a[i] = c.r.in(-span, span); b[i] = c.r.in(-span, span); }
  if (c.r.chance(0.4)) { b = a; if (n && c.r.chance(0.6)) b[c.r.below(n)]++; }
  long x = c.r.in(-span, span);
  if (n && c.r.chance(0.3)) x = a[c.r.below(n)];
  c.what << n << " indices " << str(head(a)) << str(head(b)) << " number " << x;
  c.ready();
  c.saw_what();
  Indices ia = to_indices(a), ib = to_indices(b);
  tensor::index xi = x;
  ALL6(c, "ii", a[i], b[i], ia, ib, n)
  ALL6(c, "in", a[i], x, ia, xi, n)
  ALL6(c, "ni", x, a[i], xi, ia, n)
  CHECK_MSG(c, tensor::all_equal(ia, ib) == (a == b), "all_equal", "");
  CHECK_MSG(c, tensor::some_unequal(ia, ib) == (a != b), "some_unequal", "");
  Dims longer = a;
  longer.push_back(0);
  CHECK_MSG(c, !tensor::all_equal(ia, to_indices(longer)) && !tensor::all_equal(to_indices(longer), ia), "all_equal of other lengths", "");
  Dims cat = a;
  cat.insert(cat.end(), b.begin(), b.end());
  Dims g = from_indices(ia << ib);
  CHECK_MSG(c, g == cat, "concatenation", str(g));
  g = from_indices(ia << ia);
  cat = a;
  cat.insert(cat.end(), a.begin(), a.end());
  CHECK_MSG(c, g == cat, "concatenation with itself", str(g));
  g = from_indices(Indices() << ia);
  CHECK_MSG(c, g == a, "concatenation after empty", str(g));
  if (n >= 3) {
    bool eq3 = n == 3;
    CHECK_MSG(c, (ia == (igen << a[0] << a[1] << a[2])) == eq3, "== list", "");
    CHECK_MSG(c, ((igen << a[0] << a[1] << a[2]) == ia) == eq3, "list ==", "");
    Indices h = igen << a[0] << a[1] << a[2];
    CHECK_MSG(c, (h == (igen << a[0] << a[1] << b[2])) == (a[2] == b[2]), "== list", "");
  }
  RTensor r = tensor::index_to_tensor(ia);
  CHECK_MSG(c, r.rank() == 1 && r.size() == n, "index_to_tensor:dims", "");
  for (int i = 0; i < n; i++) CHECK_MSG(c, r[i] == (double)a[i], "index_to_tensor", i);
  long prod = 1;
  bool fits = n > 0;
  for (int i = 0; i < n; i++) fits = fits && !__builtin_mul_overflow(prod, a[i], &prod);
  // total size of index lists that are valid dimensions
  Dims dd = random_dims(c.r, c.r.in(1, 6), 0.1, 5000);
  CHECK_MSG(c, to_indices(dd).total_size() == total(dd), "total_size", str(dd));
  int which = c.r.below(dd.size());
  tensor::index d1 = -7, d2 = -7, d3 = -7;
  tensor::surrounding_dimensions(to_indices(dd), which, &d1, &d2, &d3);
  long e1 = 1, e3 = 1;
  for (int i = 0; i < which; i++) e1 *= dd[i];
  for (size_t i = which + 1; i < dd.size(); i++) e3 *= dd[i];
  CHECK_MSG(c, d1 == e1 && d2 == dd[which] && d3 == e3, "surrounding_dimensions", str(dd) << " at " << which << ": " << d1 << " " << d2 << " " << d3);
  expect_bits(c, ia == to_indices(a), Bits(n, true), "operand");
}
FAMILY(P08, iota, 20000, 1000000) {
  long a = c.r.in(-30, 30), b = c.r.in(-30, 60), s = c.r.chance(0.4) ? 1 : c.r.in(1, 9);
  if (c.r.chance(0.01)) b = a + length(c, 12) * s - c.r.in(0, s);
  if (c.r.chance(0.05)) { long off = c.r.in(-4000000000000000000L, 4000000000000000000L); a += off; b += off; }
  c.what << "iota(" << a << "," << b << "," << s << ")";
  c.ready();
  c.saw_what();
  Dims w;
  for (long i = a; i <= b; i += s) w.push_back(i);
  Dims g = from_indices(tensor::iota(a, b, s));
  CHECK_MSG(c, g == w, "iota", str(g) << " expected " << str(w));
  g = from_indices(Indices::range(a, b, s));
  CHECK_MSG(c, g == w, "Indices::range", str(g) << " expected " << str(w));
  if (s == 1) {
    g = from_indices(tensor::iota(a, b));
    CHECK_MSG(c, g == w, "iota default step", str(g) << " expected " << str(w));
  }
}
FAMILY(P08, booleans, 30000, 2000000) {
  int n = length(c, 40);
  Bits a(n), b(n);
  double pa = c.r.pick(std::vector<double>{0, 0.05, 0.5, 0.95, 1}), pb = c.r.pick(std::vector<double>{0, 0.05, 0.5, 0.95, 1});
  for (int i = 0; i < n; i++) { a[i] = c.r.chance(pa); b[i] = c.r.chance(pb); }
  if (n && c.r.chance(0.4)) {  // a single exception, often at an end
    a = Bits(n, c.r.chance(0.5));
    int p = c.r.chance(0.5) ? (c.r.chance(0.5) ? 0 : n - 1) : c.r.below(n);
    a[p] = !a[p];
  }
  c.what << n << ' ' << show(Bits(a.begin(), a.begin() + std::min(n, 40))) << " " << show(Bits(b.begin(), b.begin() + std::min(n, 40)));
  c.ready();
  c.saw_what();
  tensor::Booleans ta = to_booleans(a), tb = to_booleans(b);
  Bits w(n);
  for (int i = 0; i < n; i++) w[i] = a[i] && b[i];
  expect_bits(c, ta && tb, w, "&&");
  quantifiers(c, ta && tb, w, "&&");
  for (int i = 0; i < n; i++) w[i] = a[i] || b[i];
  expect_bits(c, ta || tb, w, "||");
  quantifiers(c, ta || tb, w, "||");
  for (int i = 0; i < n; i++) w[i] = !a[i];
  expect_bits(c, !ta, w, "!");
  quantifiers(c, !ta, w, "!");
  quantifiers(c, ta, a, "plain");
  expect_bits(c, ta && ta, a, "&& itself");
  expect_bits(c, ta || ta, a, "|| itself");
  expect_bits(c, !!ta, a, "!!");
  CHECK_MSG(c, tensor::none_of(tb) == !tensor::any_of(tb) && tensor::all_of(!tb) == tensor::none_of(tb), "duality", "");
  // a copy is independent
  tensor::Booleans tc = ta;
  if (n) { int p = c.r.below(n); tc.at(p) = !a[p]; }
  expect_bits(c, ta, a, "operand");
  expect_bits(c, tb, b, "operand");
}
MON_MAIN
