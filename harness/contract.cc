// P09 contractions, P10 diagonals / traces / scaling, P11 reductions and sorting, P12 Kronecker.
#include <climits>
#include "ref.h"
using namespace ref;

// ---------------------------------------------------------------- P09
enum { FOLD, FOLDC, FOLDIN, MMULT };
static const char *opname[] = {"fold", "foldc", "foldin", "mmult"};
template <class A, class B> VA reference(int op, const Arr<A> &a, int n1, const Arr<B> &b, int n2) {
  Dims d, ia(a.d.size()), ib(b.d.size());
  Dims da, db;
  for (int i = 0; i < a.rank(); i++) if (i != n1) da.push_back(i);
  for (int i = 0; i < b.rank(); i++) if (i != n2) db.push_back(i);
  // result indices as (which operand, which index)
  std::vector<std::pair<int, int> > r;
  if (op != FOLDIN) {
    for (size_t i = 0; i < da.size(); i++) r.push_back(std::make_pair(0, (int)da[i]));
    for (size_t i = 0; i < db.size(); i++) r.push_back(std::make_pair(1, (int)db[i]));
  } else {  // c(k,i,j,m) = a(i,l,j) b(k,l,m)
    for (size_t i = 0; i < db.size(); i++) if (db[i] < n2) r.push_back(std::make_pair(1, (int)db[i]));
    for (size_t i = 0; i < da.size(); i++) r.push_back(std::make_pair(0, (int)da[i]));
    for (size_t i = 0; i < db.size(); i++) if (db[i] > n2) r.push_back(std::make_pair(1, (int)db[i]));
  }
  for (size_t i = 0; i < r.size(); i++) d.push_back(r[i].first ? b.d[r[i].second] : a.d[r[i].second]);
  if (d.empty()) d.push_back(1);
  VA out(d);
  for (long p = 0; p < out.size(); p++) {
    Dims q = unpos(d, p);
    for (size_t i = 0; i < r.size(); i++) (r[i].first ? ib : ia)[r[i].second] = q[i];
    for (long l = 0; l < a.d[n1]; l++) {
      ia[n1] = l;
      ib[n2] = l;
      cld x = ld(a.at(ia));
      if (op == FOLDC) x = std::conj(x);
      out.v[p].add(x * ld(b.at(ib)));
    }
  }
  return out;
}
static Kind vkind(Case &c) { return c.r.chance(0.47) ? INTS : c.r.chance(0.15) ? WIDE : REALS; }
// Shapes for a contraction: big extents now and then so that blocked kernels are reached.
static void shapes(Case &c, int op, Dims &da, Dims &db, int &n1, int &n2) {
  for (;;) {
    int ra = any_rank(c.r, 1, 4), rb = any_rank(c.r, 1, 4);
    da = random_dims(c.r, ra, 0.04, 1500);
    db = random_dims(c.r, rb, 0.04, 1500);
    n1 = op == MMULT ? ra - 1 : c.r.below(ra);
    n2 = op == MMULT ? 0 : c.r.below(rb);
    if (c.r.chance(0.25)) for (int i = 0; i < ra; i++) if (i != n1 && c.r.chance(0.5)) da[i] = 1;
    if (c.r.chance(0.25)) for (int i = 0; i < rb; i++) if (i != n2 && c.r.chance(0.5)) db[i] = 1;
    long l = std::max(1L, da[n1]);
    if (c.r.chance(0.03)) l = c.r.in(30, 140);
    da[n1] = db[n2] = l;
    if (total(da) * total(db) / l <= 60000) return;
  }
}
template <class A, class B> void contraction(Case &c, int op) {
  typedef typename Res<A, B>::type R;
  Dims da, db;
  int n1, n2;
  shapes(c, op, da, db, n1, n2);
  Kind k = vkind(c);
  Arr<A> a = random_arr<A>(c.r, da, k);
  Arr<B> b = random_arr<B>(c.r, db, k);
  int m1 = c.r.chance(0.4) ? n1 - (int)da.size() : n1, m2 = c.r.chance(0.4) ? n2 - (int)db.size() : n2;
  c.what << opname[op] << " " << (sizeof(A) > 8 ? "C" : "R") << str(da) << "," << m1 << " " << (sizeof(B) > 8 ? "C" : "R") << str(db) << "," << m2;
  c.ready();
  c.saw_what();
  VA w = reference(op, a, n1, b, n2);
  tensor::Tensor<A> ta = to_tensor(a);
  tensor::Tensor<B> tb = to_tensor(b);
  tensor::Tensor<R> got;
  switch (op) {
  case FOLD: got = fold(ta, m1, tb, m2); break;
  case FOLDC: got = foldc(ta, m1, tb, m2); break;
  case MMULT: got = mmult(ta, tb); break;
  }
  expect_val<R>(c, got, w, opname[op]);
  unchanged(c, ta, a, opname[op]);
  unchanged(c, tb, b, opname[op]);
}
template <class E> tensor::Tensor<E> value_of(int op, const tensor::Tensor<E> &a, int m1, const tensor::Tensor<E> &b, int m2) {
  return op == FOLD ? fold(a, m1, b, m2) : op == FOLDC ? foldc(a, m1, b, m2) : op == FOLDIN ? foldin(a, m1, b, m2) : mmult(a, b);
}
template <class E> void square(Case &c) {  // an operand with itself, and with a copy
  Dims d = random_dims(c.r, c.r.in(1, 3), 0, 150);
  int n = c.r.below(d.size());
  Arr<E> a = random_arr<E>(c.r, d, vkind(c));
  int op = c.r.below(3);
  c.what << opname[op] << " of " << (sizeof(E) > 8 ? "C" : "R") << str(d) << " with itself over " << n;
  c.ready();
  c.saw_what();
  VA w = reference(op, a, n, a, n);
  tensor::Tensor<E> t = to_tensor(a), u = t;
  expect_val<E>(c, value_of(op, t, n, t, n), w, std::string(opname[op]) + " itself");
  expect_val<E>(c, value_of(op, t, n, u, n), w, std::string(opname[op]) + " copy");
  t = value_of(op, t, n, t, n);
  expect_val<E>(c, t, w, std::string(opname[op]) + " assigned to operand");
  unchanged(c, u, a, opname[op]);
}
FAMILY(P09, fold, 60000, 2000000) {
  switch (c.r.below(4)) {
  case 0: contraction<double, double>(c, FOLD); break;
  case 1: contraction<cdouble, cdouble>(c, FOLD); break;
  case 2: contraction<double, cdouble>(c, FOLD); break;
  case 3: contraction<cdouble, double>(c, FOLD); break;
  }
}
FAMILY(P09, foldc, 60000, 2000000) {
  switch (c.r.below(4)) {
  case 0: contraction<double, double>(c, FOLDC); break;
  case 1: contraction<cdouble, cdouble>(c, FOLDC); break;
  case 2: contraction<double, cdouble>(c, FOLDC); break;
  case 3: contraction<cdouble, double>(c, FOLDC); break;
  }
}
FAMILY(P09, mmult, 40000, 1500000) {
  switch (c.r.below(4)) {
  case 0: contraction<double, double>(c, MMULT); break;
  case 1: contraction<cdouble, cdouble>(c, MMULT); break;
  case 2: contraction<double, cdouble>(c, MMULT); break;
  case 3: contraction<cdouble, double>(c, MMULT); break;
  }
}
template <class E> void foldin_case(Case &c) {
  Dims da, db;
  int n1, n2;
  shapes(c, FOLDIN, da, db, n1, n2);
  Kind k = vkind(c);
  Arr<E> a = random_arr<E>(c.r, da, k), b = random_arr<E>(c.r, db, k);
  int m1 = c.r.chance(0.4) ? n1 - (int)da.size() : n1, m2 = c.r.chance(0.4) ? n2 - (int)db.size() : n2;
  c.what << "foldin " << (sizeof(E) > 8 ? "C" : "R") << str(da) << "," << m1 << " " << str(db) << "," << m2;
  c.ready();
  c.saw_what();
  VA w = reference(FOLDIN, a, n1, b, n2);
  tensor::Tensor<E> ta = to_tensor(a), tb = to_tensor(b);
  expect_val<E>(c, foldin(ta, m1, tb, m2), w, "foldin");
  unchanged(c, ta, a, "foldin");
  unchanged(c, tb, b, "foldin");
}
FAMILY(P09, foldin, 60000, 2000000) {
  if (c.r.chance(0.5)) foldin_case<double>(c); else foldin_case<cdouble>(c);
}
FAMILY(P09, itself, 10000, 600000) {
  if (c.r.chance(0.5)) square<double>(c); else square<cdouble>(c);
}
static void into(int op, RTensor &o, const RTensor &a, int m1, const RTensor &b, int m2) {
  if (op == FOLD) fold_into(o, a, m1, b, m2); else if (op == FOLDIN) foldin_into(o, a, m1, b, m2); else mmult_into(o, a, b);
}
FAMILY(P09, into, 60000, 2000000) {
  static const int ops[] = {FOLD, FOLDIN, MMULT};
  int op = ops[c.r.below(3)];
  Dims da, db;
  int n1, n2;
  shapes(c, op, da, db, n1, n2);
  Kind k = vkind(c);
  RA a = random_arr<double>(c.r, da, k), b = random_arr<double>(c.r, db, k);
  int m1 = c.r.chance(0.4) ? n1 - (int)da.size() : n1, m2 = c.r.chance(0.4) ? n2 - (int)db.size() : n2;
  int target = c.r.below(7);
  c.what << opname[op] << "_into target " << target << " " << str(da) << "," << m1 << " " << str(db) << "," << m2;
  c.ready();
  c.saw_what();
  VA w = reference(op, a, n1, b, n2);
  RTensor ta = to_tensor(a), tb = to_tensor(b), out, other;
  RA old;
  std::string key = std::string(opname[op]) + "_into";
  switch (target) {
  case 0: break;                                                      // empty
  case 1: old = random_arr<double>(c.r, random_dims(c.r, c.r.in(1, 4)), SPECIAL); out = to_tensor(old); break;
  case 2: old = RA(w.d); std::fill(old.v.begin(), old.v.end(), std::nan("")); out = to_tensor(old); break;  // right dimensions
  case 3: old = RA(w.d); std::fill(old.v.begin(), old.v.end(), 7.0); out = to_tensor(old); other = out; break;  // shared target
  case 4: out = ta; break;                                            // shares storage with an argument
  case 5: other = ta; into(op, ta, ta, m1, tb, m2); expect_val<double>(c, ta, w, key + " first argument"); unchanged(c, other, a, key); unchanged(c, tb, b, key); return;
  case 6: other = tb; into(op, tb, ta, m1, tb, m2); expect_val<double>(c, tb, w, key + " second argument"); unchanged(c, other, b, key); unchanged(c, ta, a, key); return;
  }
  into(op, out, ta, m1, tb, m2);
  expect_val<double>(c, out, w, key);
  if (target == 3) expect_same(c, other, old, key + ":other handle of the target");
  unchanged(c, ta, a, key);
  unchanged(c, tb, b, key);
  into(op, out, ta, m1, tb, m2);  // again, into the previous result
  expect_val<double>(c, out, w, key + " repeated");
}

// ---------------------------------------------------------------- P10
static void two_long(mon::Rng &r, Dims &d) {  // a long diagonal
  for (size_t k = 0; k < d.size(); k++) d[k] = r.in(1, 2);
  size_t i = r.below(d.size()), j = r.below(d.size() - 1);
  d[i] = r.in(150, 300);
  d[j < i ? j : j + 1] = r.in(150, 300);
}
template <class E> void diag_case(Case &c) {
  long n = c.r.chance(0.1) ? 0 : c.r.chance(0.04) ? c.r.in(8, 140) : c.r.chance(0.002) ? c.r.in(141, 420) : c.r.in(1, 7);
  int which = c.r.chance(0.02) ? c.r.in(-60, 60) : c.r.in(-4, 4);
  Arr<E> v = distinct_arr<E>(c.r, Dims{n});
  bool sized = c.r.chance(0.6);
  long rows = n + std::max(0, -which), cols = n + std::max(0, which);
  if (sized) (c.r.chance(0.5) ? rows : cols) += c.r.in(0, 3);
  if (!sized) rows = cols = n + std::abs(which);
  // the diagonal `which` of a rows x cols matrix must have exactly n elements
  long l = std::min(rows - std::max(0, -which), cols - std::max(0, which));
  c.what << "diag of " << n << " at " << which << (sized ? " sized " : " ") << rows << "x" << cols << (sizeof(E) > 8 ? " C" : " R");
  c.ready();
  c.saw_what();
  Arr<E> w(Dims{rows, cols});
  for (long i = 0; i < n; i++) w(i + std::max(0, -which), i + std::max(0, which)) = v.v[i];
  tensor::Tensor<E> t = to_tensor(v);
  if (l != n) c.fail("harness", "bad case");
  if (sized) expect_same<E>(c, diag(t, which, rows, cols), w, "diag");
  else {
    expect_same<E>(c, diag(t, which), w, "diag");
    if (!which) expect_same<E>(c, diag(t), w, "diag");
  }
  unchanged(c, t, v, "diag");
}
FAMILY(P10, diag, 15000, 800000) {
  if (c.r.chance(0.5)) diag_case<double>(c); else diag_case<cdouble>(c);
}
template <class E> void take_diag_case(Case &c) {
  Dims d;
  int i1, i2, which;
  do {
    d = dims_or_vast(c.r, any_rank(c.r, 2, 5), 0, 2000);
    if (d.size() < 5 && c.r.chance(0.0008)) two_long(c.r, d);
    if (c.r.chance(0.15)) d[c.r.below(d.size())] = 0;
    i1 = c.r.below(d.size());
    do i2 = c.r.below(d.size()); while (i2 == i1);
    if (c.r.chance(0.3)) { i1 = 0; i2 = d.size() - 1; }
  } while (d[i1] == 0 || d[i2] == 0);
  which = c.r.chance(0.3) ? 0 : c.r.in(-(d[i1] - 1), d[i2] - 1);
  Arr<E> a = distinct_arr<E>(c.r, d);
  int lo = std::min(i1, i2), hi = std::max(i1, i2);
  Dims e;
  long n = std::min(d[i1] - std::max(0, -which), d[i2] - std::max(0, which));
  for (size_t i = 0; i < d.size(); i++) if ((int)i == lo) e.push_back(n); else if ((int)i != hi) e.push_back(d[i]);
  Arr<E> w(e);
  for (long p = 0; p < w.size(); p++) {
    Dims q = unpos(e, p), f(d.size());
    long l = 0;
    for (size_t i = 0, k = 0; i < d.size(); i++) { if ((int)i == hi) continue; if ((int)i == lo) l = q[k]; else f[i] = q[k]; k++; }
    f[i1] = l + std::max(0, -which);
    f[i2] = l + std::max(0, which);
    w.v[p] = a.at(f);
  }
  int m1 = c.r.chance(0.4) ? i1 - (int)d.size() : i1, m2 = c.r.chance(0.4) ? i2 - (int)d.size() : i2;
  c.what << "take_diag of " << str(d) << " which " << which << " indices " << m1 << "," << m2 << (sizeof(E) > 8 ? " C" : " R");
  c.ready();
  c.saw_what();
  tensor::Tensor<E> t = to_tensor(a);
  expect_same<E>(c, take_diag(t, which, m1, m2), w, "take_diag");
  expect_same<E>(c, t.diag(which, m1, m2), w, "Tensor::diag");
  if (i1 == 0 && i2 == (int)d.size() - 1) {
    expect_same<E>(c, take_diag(t, which), w, "take_diag default indices");
    expect_same<E>(c, t.diag(which), w, "Tensor::diag default indices");
    if (!which) { expect_same<E>(c, take_diag(t), w, "take_diag default"); expect_same<E>(c, t.diag(), w, "Tensor::diag default"); }
  }
  unchanged(c, t, a, "take_diag");
}
FAMILY(P10, take_diag, 80000, 3000000) {
  if (c.r.chance(0.5)) take_diag_case<double>(c); else take_diag_case<cdouble>(c);
}
template <class E> void trace_case(Case &c) {
  Dims d = dims_or_vast(c.r, any_rank(c.r, 2, 5), 0.06, 1500);
  if (d.size() < 5 && c.r.chance(0.0008)) two_long(c.r, d);
  int i1 = c.r.below(d.size()), i2;
  do i2 = c.r.below(d.size()); while (i2 == i1);
  Arr<E> a = random_arr<E>(c.r, d, vkind(c));
  Dims e;
  for (size_t i = 0; i < d.size(); i++) if ((int)i != i1 && (int)i != i2) e.push_back(d[i]);
  if (e.empty()) e.push_back(1);
  VA w(e);
  for (long p = 0; p < w.size(); p++) {
    Dims q = unpos(e, p), f(d.size());
    for (size_t i = 0, k = 0; i < d.size(); i++) if ((int)i != i1 && (int)i != i2) f[i] = q[k++];
    for (long l = 0; l < std::min(d[i1], d[i2]); l++) { f[i1] = f[i2] = l; w.v[p].add(ld(a.at(f))); }
  }
  int m1 = c.r.chance(0.4) ? i1 - (int)d.size() : i1, m2 = c.r.chance(0.4) ? i2 - (int)d.size() : i2;
  c.what << "trace of " << str(d) << " over " << m1 << "," << m2 << (sizeof(E) > 8 ? " C" : " R");
  c.ready();
  c.saw_what();
  tensor::Tensor<E> t = to_tensor(a);
  expect_val<E>(c, trace(t, m1, m2), w, "trace");
  if (d.size() == 2) expect_num<E>(c, trace(t), w.v[0], "trace(matrix)");
  unchanged(c, t, a, "trace");
}
FAMILY(P10, trace, 60000, 3000000) {
  if (c.r.chance(0.5)) trace_case<double>(c); else trace_case<cdouble>(c);
}
template <class E, class V> void scale_case(Case &c) {
  Dims d = dims_or_vast(c.r, any_rank(c.r, 1, 5), 0.06, 1500);
  int i = c.r.below(d.size());
  Arr<E> a = random_arr<E>(c.r, d, vkind(c));
  Arr<V> v = random_arr<V>(c.r, Dims{d[i]}, vkind(c));
  VA w(d);
  for (long p = 0; p < w.size(); p++) w.v[p].add(ld(a.v[p]) * ld(v.v[unpos(d, p)[i]]));
  int m = c.r.chance(0.4) ? i - (int)d.size() : i;
  c.what << "scale of " << str(d) << " index " << m << (sizeof(E) > 8 ? " C" : " R") << (sizeof(V) > 8 ? " by C" : " by R");
  c.ready();
  c.saw_what();
  tensor::Tensor<E> t = to_tensor(a);
  tensor::Tensor<V> tv = to_tensor(v);
  expect_val<E>(c, scale(t, m, tv), w, "scale");
  unchanged(c, t, a, "scale");
  unchanged(c, tv, v, "scale");
  tensor::Tensor<E> u = t;
  scale_inplace(u, m, tv);
  expect_val<E>(c, u, w, "scale_inplace shared");
  unchanged(c, t, a, "scale_inplace shared");
  scale_inplace(t, m, tv);
  expect_val<E>(c, t, w, "scale_inplace");
  unchanged(c, tv, v, "scale_inplace");
}
template <class E> void scale_self(Case &c) {
  Arr<E> a = random_arr<E>(c.r, Dims{c.r.in(0, 6)}, vkind(c));
  VA w(a.d);
  for (long p = 0; p < w.size(); p++) w.v[p].add(ld(a.v[p]) * ld(a.v[p]));
  c.what << "scale of vector " << str(a.d) << " by itself" << (sizeof(E) > 8 ? " C" : " R");
  c.ready();
  c.saw_what();
  tensor::Tensor<E> t = to_tensor(a), keep = t;
  expect_val<E>(c, scale(t, 0, t), w, "scale by itself");
  scale_inplace(t, 0, t);
  expect_val<E>(c, t, w, "scale_inplace by itself");
  unchanged(c, keep, a, "scale_inplace by itself");
}
// Products with infinities, NaN and zeros: each element is the plain product, whatever its factor
static bool is_product(double x, double a, double f) { return same(x, a * f); }
static bool is_product(const cdouble &x, const cdouble &a, double f) {  // as complex numbers in either order, or part by part
  return same(x, a * f) || same(x, a * cdouble(f)) || same(x, cdouble(f) * a);
}
template <class E> void scale_special(Case &c) {
  Dims d = random_dims(c.r, c.r.in(1, 4));
  int i = c.r.below(d.size());
  Arr<E> a = random_arr<E>(c.r, d, c.r.chance(0.6) ? SPECIAL : REALS);
  Arr<double> v = random_arr<double>(c.r, Dims{d[i]}, c.r.chance(0.7) ? SPECIAL : REALS);
  c.what << "scale with special values " << str(d) << " index " << i << (sizeof(E) > 8 ? " C" : " R");
  c.ready();
  c.saw_what();
  tensor::Tensor<E> t = to_tensor(a);
  tensor::Tensor<double> tv = to_tensor(v);
  for (int in_place = 0; in_place < 2; in_place++) {
    tensor::Tensor<E> u = t;
    if (in_place) scale_inplace(u, i, tv); else u = scale(t, i, tv);
    Arr<E> g = from_tensor(u);
    CHECK_MSG(c, g.d == d, "scale special:dims", str(g.d));
    for (long p = 0; p < g.size(); p++) {
      double f = v.v[unpos(d, p)[i]];
      CHECK_MSG(c, is_product(g.v[p], a.v[p], f), "scale special", "element " << p << ": " << a.v[p] << " times " << f << " is " << g.v[p]);
    }
  }
}
FAMILY(P10, scale, 60000, 3000000) {
  switch (c.r.below(12)) {
  case 10: scale_special<double>(c); break;
  case 11: scale_special<cdouble>(c); break;
  case 0: scale_self<double>(c); break;
  case 1: scale_self<cdouble>(c); break;
  case 2: case 3: case 4: scale_case<double, double>(c); break;
  case 5: case 6: scale_case<cdouble, cdouble>(c); break;
  default: scale_case<cdouble, double>(c); break;
  }
}

// ---------------------------------------------------------------- P11
template <class E> VA mean_ref(const Arr<E> &a, int i) {
  Dims d;
  for (int k = 0; k < a.rank(); k++) if (k != i) d.push_back(a.d[k]);
  if (d.empty()) d.push_back(1);
  VA w(d);
  for (long p = 0; p < a.size(); p++) {
    Dims q = unpos(a.d, p);
    q.erase(q.begin() + i);
    if (q.empty()) q.push_back(0);
    w.at(q).add(ld(a.v[p]) / (long double)a.d[i]);
  }
  return w;
}
static void real_only(Case &c, const RTensor &t, const RA &a) {
  double lo = *std::min_element(a.v.begin(), a.v.end()), hi = *std::max_element(a.v.begin(), a.v.end());
  CHECK_MSG(c, tensor::min(t) == lo, "min", tensor::min(t) << " expected " << lo);
  CHECK_MSG(c, tensor::max(t) == hi, "max", tensor::max(t) << " expected " << hi);
}
static void real_only(Case &, const CTensor &, const CA &) {}
template <class E> void reductions(Case &c) {
  Dims d = c.r.chance(0.003) ? Dims{c.r.in(10000, 100000)} : c.r.chance(0.05) ? Dims{c.r.in(200, 3000)} : random_dims(c.r, any_rank(c.r, 1, 5), 0.05, 900);
  Kind k = vkind(c);
  Arr<E> a = random_arr<E>(c.r, d, k), b = random_arr<E>(c.r, d, k);
  if (c.r.chance(0.2)) for (size_t i = 0; i < a.v.size(); i++) a.v[i] = -mag(a.v[i]) - 1.0;  // all negative
  c.what << "reductions of " << (sizeof(E) > 8 ? "C" : "R") << str(d) << show(a.v, 5);
  c.ready();
  c.saw_what();
  tensor::Tensor<E> ta = to_tensor(a), tb = to_tensor(b);
  long n = a.size();
  Val s, m, sq, sc;
  double big = 0;
  for (long i = 0; i < n; i++) {
    s.add(ld(a.v[i]));
    if (n) m.add(ld(a.v[i]) / (long double)n);
    sq.add(std::norm(ld(a.v[i])));
    sc.add(ld(a.v[i]) * std::conj(ld(b.v[i])));
    big = std::max(big, mag(a.v[i]));
  }
  expect_num(c, tensor::sum(ta), s, "sum");
  if (n) expect_num(c, tensor::mean(ta), m, "mean");
  if (n) real_only(c, ta, a);
  double n0 = tensor::norm0(ta);
  CHECK_MSG(c, std::fabs(n0 - big) <= 4 * EPS * big, "norm0", n0 << " expected " << big);
  Val r;
  r.v = std::sqrt(sq.m);
  r.m = std::sqrt(sq.m);
  r.terms = n;
  expect_num(c, tensor::norm2(ta), r, "norm2");
  expect_num(c, tensor::scprod(ta, tb), sc, "scprod");
  expect_num(c, tensor::scprod(ta, ta), sq, "scprod with itself");
  if (d.size() == 2) {
    Val best;
    for (long i = 0; i < d[0]; i++) {
      Val row;
      for (long j = 0; j < d[1]; j++) row.add(mag(a(i, j)));
      if (row.m > best.m) best = row;
    }
    expect_num(c, tensor::matrix_norminf(ta), best, "matrix_norminf");
  }
  int i = c.r.below(d.size());
  if (d[i]) {
    int j = c.r.chance(0.4) ? i - (int)d.size() : i;
    expect_val<E>(c, tensor::mean(ta, j), mean_ref(a, i), "mean(t,i)");
  }
  unchanged(c, ta, a, "reductions");
  unchanged(c, tb, b, "reductions");
}
FAMILY(P11, reductions, 40000, 2000000) {
  if (c.r.chance(0.5)) reductions<double>(c); else reductions<cdouble>(c);
}
template <class V, class T> void sorting(Case &c, const std::vector<V> &v, const T &t) {
  long n = v.size();
  for (int rev = 0; rev < 2; rev++) {
    std::vector<V> w = v;
    std::stable_sort(w.begin(), w.end());
    if (rev) std::reverse(w.begin(), w.end());
    T s = rev ? tensor::sort(t, true) : c.r.chance(0.5) ? tensor::sort(t) : tensor::sort(t, false);
    std::vector<V> g(s.begin_const(), s.end_const());
    CHECK_MSG(c, g.size() == w.size() && std::equal(g.begin(), g.end(), w.begin()), rev ? "sort reverse" : "sort", "got " << show(g) << " expected " << show(w));
    Indices q = rev ? tensor::sort_indices(t, true) : tensor::sort_indices(t);
    CHECK_MSG(c, q.size() == n, "sort_indices:size", q.size());
    std::vector<bool> seen(n);
    for (long i = 0; i < n; i++) {
      long k = q[i];
      CHECK_MSG(c, k >= 0 && k < n && !seen[k], "sort_indices:permutation", str(from_indices(q)));
      seen[k] = true;
      CHECK_MSG(c, v[k] == w[i], rev ? "sort_indices reverse" : "sort_indices", str(from_indices(q)) << " for " << show(v));
    }
  }
  CHECK_MSG(c, std::equal(v.begin(), v.end(), t.begin_const()), "sort:operand modified", "");
}
static long far(mon::Rng &r) {  // any magnitude, both signs, the limits
  if (r.chance(0.1)) return r.chance(0.5) ? LONG_MIN : LONG_MAX;
  long v = (long)(r.next() >> 1) >> r.in(0, 62);
  return r.chance(0.5) ? v : -v;
}
FAMILY(P11, sort, 25000, 1500000) {
  long n = c.r.chance(0.06) ? 0 : c.r.chance(0.1) ? c.r.in(17, 400) : c.r.chance(0.004) ? c.r.in(5000, 40000) : c.r.in(1, 16);
  int style = c.r.below(4);  // few values, many, extreme, already sorted
  if (c.r.chance(0.5)) {
    RA a(Dims{n});
    for (long i = 0; i < n; i++) {
      a.v[i] = style == 0 ? c.r.in(-2, 2) : style == 1 ? c.r.normal() : style == 2 ? std::ldexp(c.r.normal(), c.r.in(-900, 900)) : i * 0.5;
      if (style == 2 && c.r.chance(0.1)) a.v[i] = c.r.chance(0.5) ? INFINITY : -INFINITY;
    }
    if (style == 3 && c.r.chance(0.5)) std::reverse(a.v.begin(), a.v.end());
    c.what << "sort reals " << show(a.v, 10);
    c.ready();
    c.saw_what();
    sorting(c, a.v, to_tensor(a));
  } else {
    Dims a(n);
    bool wide = c.r.chance(0.6);
    long base = style == 2 ? c.r.in(-9000000000000000000L, 9000000000000000000L) : 0;
    for (long i = 0; i < n; i++)
      a[i] = style == 0 ? c.r.in(-2, 2) : style == 1 ? c.r.in(-1000, 1000) : style == 2 ? (wide ? far(c.r) : base + c.r.in(-9, 9)) : i;
    c.what << "sort indices " << show(a, 10);
    c.ready();
    c.saw_what();
    sorting(c, a, to_indices(a));
  }
}
template <class E> void linspace_case(Case &c) {
  long n = c.r.chance(0.02) ? c.r.in(100, 3000) : c.r.in(1, 30);
  bool dflt = c.r.chance(0.1);
  if (dflt) n = 100;
  Kind k = vkind(c);
  if (c.r.chance(0.5)) {
    E a, b;
    gen(c.r, k, a);
    gen(c.r, k, b);
    if (c.r.chance(0.1)) b = a;
    c.what << "linspace(" << a << "," << b << "," << n << ")";
    c.ready();
    c.saw_what();
    VA w(Dims{n});
    for (long i = 0; i < n; i++) {
      w.v[i].add(ld(a));
      if (n > 1) w.v[i].add((ld(b) - ld(a)) * ((long double)i / (n - 1)));
      w.v[i].m += std::abs(ld(b));
    }
    tensor::Tensor<E> g = dflt ? tensor::linspace(a, b) : tensor::linspace(a, b, n);
    expect_val<E>(c, g, w, "linspace");
  } else {
    Dims d = random_dims(c.r, c.r.in(1, 3), 0, 60);
    Arr<E> a = random_arr<E>(c.r, d, k), b = random_arr<E>(c.r, d, k);
    c.what << "linspace of " << str(d) << " n " << n << (sizeof(E) > 8 ? " C" : " R");
    c.ready();
    c.saw_what();
    Dims e = d;
    if (total(d) == 1) e = Dims{n}; else e.push_back(n);
    VA w(e);
    for (long i = 0; i < n; i++)
      for (long p = 0; p < a.size(); p++) {
        Val &x = w.v[i * a.size() + p];
        x.add(ld(a.v[p]));
        if (n > 1) x.add((ld(b.v[p]) - ld(a.v[p])) * ((long double)i / (n - 1)));
        x.m += std::abs(ld(b.v[p]));
      }
    tensor::Tensor<E> ta = to_tensor(a), tb = to_tensor(b);
    tensor::Tensor<E> g = dflt ? tensor::linspace(ta, tb) : tensor::linspace(ta, tb, n);
    expect_val<E>(c, g, w, "linspace tensors");
    unchanged(c, ta, a, "linspace");
    unchanged(c, tb, b, "linspace");
  }
}
FAMILY(P11, linspace, 15000, 800000) {
  if (c.r.chance(0.5)) linspace_case<double>(c); else linspace_case<cdouble>(c);
}

// ---------------------------------------------------------------- P12
// Mostly small; now and then long, with its powers of two
static long vlen(Case &c, long most = 300) {
  double u = c.r.unit();
  return u < 0.04 ? c.r.in(17, most) : u < 0.07 ? std::min(most, 1L << c.r.in(4, 8)) : random_dim(c.r, 0.1);
}
template <class E> VA kron_ref(const Arr<E> &a, const Arr<E> &b) {  // indices of a vary slowest
  VA w(Dims{a.d[0] * b.d[0], a.d[1] * b.d[1]});
  for (long i = 0; i < a.d[0]; i++) for (long j = 0; j < a.d[1]; j++)
    for (long k = 0; k < b.d[0]; k++) for (long l = 0; l < b.d[1]; l++)
      w.at(Dims{i * b.d[0] + k, j * b.d[1] + l}).add(ld(a(i, j)) * ld(b(k, l)));
  return w;
}
template <class E> void kron_case(Case &c) {
  bool vec = c.r.chance(0.35);
  Dims da, db;
  if (vec) { da = Dims{vlen(c)}; db = Dims{vlen(c)}; }
  else { da = random_dims(c.r, 2, 0.08, 60); db = random_dims(c.r, 2, 0.08, 60); }
  Kind k = vkind(c);
  Arr<E> a = random_arr<E>(c.r, da, k), b = random_arr<E>(c.r, db, k);
  c.what << "kron " << (sizeof(E) > 8 ? "C" : "R") << str(da) << str(db) << show(a.v, 3) << show(b.v, 3);
  c.ready();
  c.saw_what();
  Arr<E> ma = a, mb = b;
  if (vec) { ma.d.push_back(1); mb.d.push_back(1); }
  VA w = kron_ref(ma, mb), w2 = kron_ref(mb, ma);
  if (vec) { w.d = Dims{w.size()}; w2.d = w.d; }
  tensor::Tensor<E> ta = to_tensor(a), tb = to_tensor(b);
  expect_val<E>(c, kron(ta, tb), w, "kron");
  expect_val<E>(c, kron2(ta, tb), w2, "kron2");
  expect_val<E>(c, kron2(tb, ta), w, "kron2 exchanged");
  unchanged(c, ta, a, "kron");
  unchanged(c, tb, b, "kron");
  if (c.r.chance(0.2)) {
    VA ws = kron_ref(ma, ma);
    if (vec) ws.d = Dims{ws.size()};
    expect_val<E>(c, kron(ta, ta), ws, "kron with itself");
    ta = kron(ta, ta);
    expect_val<E>(c, ta, ws, "kron assigned to operand");
  }
}
FAMILY(P12, kron, 60000, 2000000) {
  if (c.r.chance(0.5)) kron_case<double>(c); else kron_case<cdouble>(c);
}
// Infinities, NaN, zeros of both signs, extreme magnitudes: each element is still one product.
FAMILY(P12, kron_special, 20000, 800000) {
  bool vec = c.r.chance(0.4);
  Dims da = vec ? Dims{c.r.in(1, 5)} : Dims{c.r.in(1, 4), c.r.in(1, 4)}, db = vec ? Dims{c.r.in(1, 5)} : Dims{c.r.in(1, 4), c.r.in(1, 4)};
  Arr<double> a = random_arr<double>(c.r, da, SPECIAL), b = random_arr<double>(c.r, db, SPECIAL);
  c.what << "kron of special values " << str(da) << str(db) << show(a) << show(b);
  c.ready();
  c.saw_what();
  long r1 = da[0], c1 = vec ? 1 : da[1], r2 = db[0], c2 = vec ? 1 : db[1];
  Arr<double> w(vec ? Dims{r1 * r2} : Dims{r1 * r2, c1 * c2});
  for (long i = 0; i < r1; i++) for (long j = 0; j < c1; j++) for (long k = 0; k < r2; k++) for (long l = 0; l < c2; l++)
    w.v[i * r2 + k + r1 * r2 * (j * c2 + l)] = a.v[i + r1 * j] * b.v[k + r2 * l];
  RTensor ta = to_tensor(a), tb = to_tensor(b);
  expect_same(c, kron(ta, tb), w, "kron special");
  expect_same(c, kron2(tb, ta), w, "kron2 special");
}
template <class E> void kron_sum_case(Case &c) {
  long n = c.r.chance(0.08) ? 0 : c.r.in(1, 6), m = c.r.chance(0.08) ? 0 : c.r.in(1, 6);
  bool vec = c.r.chance(0.2);
  if (vec) { n = vlen(c); m = vlen(c); }
  else if (c.r.chance(0.01)) { n = c.r.chance(0.5) ? c.r.in(1, 2) : c.r.in(7, 20); m = c.r.in(7, n > 2 ? 20 : 70); if (c.r.chance(0.5)) std::swap(n, m); }
  Kind k = vkind(c);
  Dims da = vec ? Dims{n} : Dims{n, n}, db = vec ? Dims{m} : Dims{m, m};
  Arr<E> a = random_arr<E>(c.r, da, k), b = random_arr<E>(c.r, db, k);
  c.what << "kron2_sum " << (sizeof(E) > 8 ? "C" : "R") << str(da) << str(db) << show(a.v, 3) << show(b.v, 3);
  c.ready();
  c.saw_what();
  VA w(vec ? Dims{n * m} : Dims{n * m, n * m});
  if (vec) {
    for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) { w.v[i * m + j].add(ld(a.v[i])); w.v[i * m + j].add(ld(b.v[j])); }
  } else {
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) for (long p = 0; p < m; p++) w.at(Dims{i * m + p, j * m + p}).add(ld(a(i, j)));
    for (long i = 0; i < n; i++) for (long p = 0; p < m; p++) for (long q = 0; q < m; q++) w.at(Dims{i * m + p, i * m + q}).add(ld(b(p, q)));
  }
  tensor::Tensor<E> ta = to_tensor(a), tb = to_tensor(b);
  expect_val<E>(c, kron2_sum(ta, tb), w, "kron2_sum");
  unchanged(c, ta, a, "kron2_sum");
  unchanged(c, tb, b, "kron2_sum");
}
FAMILY(P12, kron_sum, 40000, 1500000) {
  if (c.r.chance(0.5)) kron_sum_case<double>(c); else kron_sum_case<cdouble>(c);
}
MON_MAIN
