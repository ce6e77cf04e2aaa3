// P15 solvers, P16 singular values, P17 dense eigenvalues, P18 partial eigenvalues, P19 exponential,
// P31 the step by step eigensolver.
// Every oracle is a residual or a decomposition known by construction, computed in long double.
#include "ref.h"
#include <tensor/linalg.h>
#include <tensor/arpack.h>
#include <tensor/map.h>
#include <tensor/rand.h>
using namespace ref;

template <class E> static bool cplx() { return sizeof(E) > 8; }
template <class E> static const char *tname() { return cplx<E>() ? "C" : "R"; }
static void set(cld z, double &x) { x = (double)z.real(); }
static void set(cld z, cdouble &x) { x = cdouble((double)z.real(), (double)z.imag()); }
template <class E> static Arr<E> down(const LA &a) {
  Arr<E> o(a.d);
  for (long i = 0; i < a.size(); i++) set(a.v[i], o.v[i]);
  return o;
}
template <class E> static LA up(const tensor::Tensor<E> &t) { return ref::up(from_tensor(t)); }
template <class E> static cld rnd(Case &c) { return cplx<E>() ? cld(c.r.normal(), c.r.normal()) : cld(c.r.normal(), 0); }
static LA diagm(const std::vector<cld> &d, long m, long n) {
  LA o(Dims{m, n});
  for (size_t i = 0; i < d.size(); i++) o(i, i) = d[i];
  return o;
}
// n x k isometry, by Gram-Schmidt in long double
template <class E> static LA isometry(Case &c, long n, long k) {
  LA q(Dims{n, k});
  for (long j = 0; j < k; j++)
    for (;;) {
      std::vector<cld> v(n);
      for (long i = 0; i < n; i++) v[i] = rnd<E>(c);
      for (int twice = 0; twice < 2; twice++)
        for (long l = 0; l < j; l++) {
          cld s = 0;
          for (long i = 0; i < n; i++) s += std::conj(q(i, l)) * v[i];
          for (long i = 0; i < n; i++) v[i] -= s * q(i, l);
        }
      long double t = 0;
      for (long i = 0; i < n; i++) t += std::norm(v[i]);
      if (t < 1e-4L) continue;
      t = std::sqrt(t);
      for (long i = 0; i < n; i++) q(i, j) = v[i] / t;
      break;
    }
  return q;
}
static double isometry_defect(const LA &q) { return fro(sub(mul(adj(q), q), lident(q.d[1]))); }
static LA scaled(const LA &a, long double f) { LA o = a; for (long i = 0; i < o.size(); i++) o.v[i] *= f; return o; }
static LA column(const LA &a, long j) { LA o(Dims{a.d[0], 1}); for (long i = 0; i < a.d[0]; i++) o(i, 0) = a(i, j); return o; }
static LA transposed(const LA &a) { LA o(Dims{a.d[1], a.d[0]}); for (long j = 0; j < a.d[1]; j++) for (long i = 0; i < a.d[0]; i++) o(j, i) = a(i, j); return o; }
static long size_n(Case &c, long lo, long hi, long big) {
  if (c.r.chance(0.002)) return c.r.in(big, 2 * big);
  return c.r.chance(0.06) ? c.r.in(hi, big) : c.r.in(lo, hi);
}
template <class E> static tensor::Sparse<E> sparse_of(const Arr<E> &a) { return tensor::Sparse<E>(to_tensor(a)); }

// ---------------------------------------------------------------- P15
// Right hand sides: a vector, a matrix or a tensor; returned also as a matrix.
template <class E> static Arr<E> rhs(Case &c, long n) {
  Dims d{n};
  int rank = c.r.chance(0.05) ? c.r.in(4, 6) : c.r.in(1, 3);
  for (int i = 1; i < rank; i++) d.push_back(c.r.in(1, rank > 3 ? 3 : 4));
  if (rank > 1 && c.r.chance(0.02)) d[1] = c.r.chance(0.3) ? 1L << c.r.in(3, 6) : c.r.in(5, 70);
  Arr<E> b(d);
  for (long i = 0; i < b.size(); i++) set(rnd<E>(c), b.v[i]);
  if (c.r.chance(0.05)) std::fill(b.v.begin(), b.v.end(), E(0));
  return b;
}
template <class T> static LA as_matrix(const Arr<T> &b) {
  LA o = ref::up(b);
  o.d = Dims{b.d[0], b.d[0] ? b.size() / b.d[0] : 1};
  return o;
}
template <class E> static void direct(Case &c) {
  long n = size_n(c, 1, 9, 60);
  double scale = std::pow(10.0, c.r.in(-6, 6)), cond = std::pow(10.0, c.r.real(0, 3));
  std::vector<cld> s(n);
  for (long i = 0; i < n; i++) s[i] = scale * std::pow(cond, -c.r.unit());
  LA a0 = mul(mul(isometry<E>(c, n, n), diagm(s, n, n)), isometry<E>(c, n, n));
  if (c.r.chance(0.15)) {  // permutation-like: pivoting is needed
    a0 = LA(Dims{n, n});
    for (long i = 0; i < n; i++) a0(i, (i + 1) % n) = rnd<E>(c) + cld(3);
  }
  Arr<E> a = down<E>(a0), b = rhs<E>(c, n);
  c.what << "solve " << tname<E>() << " n=" << n << " cond=" << cond << " scale=" << scale << " rhs " << str(b.d);
  c.ready();
  c.saw_what();
  tensor::Tensor<E> ta = to_tensor(a), tb = to_tensor(b);
  tensor::Tensor<E> x = linalg::solve(ta, tb);
  Arr<E> gx = from_tensor(x);
  CHECK_MSG(c, gx.d == b.d, "solve:dims", str(gx.d) << " expected " << str(b.d));
  LA X = as_matrix(gx), A = ref::up(a), B = as_matrix(b);
  double res = fro(sub(mul(A, X), B)), lim = 200 * n * EPS * (fro(A) * fro(X) + fro(B));
  CHECK_MSG(c, res <= lim, "solve:residual", res << " > " << lim);
  unchanged(c, ta, a, "solve");
  unchanged(c, tb, b, "solve");
}
FAMILY(P15, direct, 20000, 800000) { if (c.r.chance(0.5)) direct<double>(c); else direct<cdouble>(c); }

template <class E> static void singular(Case &c) {
  long n = c.r.chance(0.1) ? c.r.in(8, 40) : c.r.in(1, 7);
  Arr<E> a(Dims{n, n});
  int kind = c.r.below(4);
  for (long i = 0; i < a.size(); i++) a.v[i] = (double)c.r.in(-4, 4);
  long k = c.r.below(n);
  if (kind == 0) for (long i = 0; i < n; i++) a(i, k) = 0;
  if (kind == 1) for (long i = 0; i < n; i++) a(k, i) = 0;
  if (kind == 2) std::fill(a.v.begin(), a.v.end(), E(0));
  if (kind == 3) {  // triangular with a zero on the diagonal, rows in any order
    for (long j = 0; j < n; j++) for (long i = 0; i < n; i++) if (i > j) a(i, j) = 0; else if (i == j) a(i, j) = i == k ? 0.0 : 2.0;
    for (long i = n - 1; i > 0; i--) { long l = c.r.below(i + 1); for (long j = 0; j < n; j++) std::swap(a(i, j), a(l, j)); }
  }
  Arr<E> b = rhs<E>(c, n);
  c.what << "singular " << tname<E>() << kind << " n=" << n << show(a.v, 12);
  c.ready();
  c.saw_what();
  tensor::Tensor<E> ta = to_tensor(a), tb = to_tensor(b);
  mon::expect_abort(c, "singular", [&] { linalg::solve(ta, tb); });
}
FAMILY(P15, singular, 400, 6000) { if (c.r.chance(0.5)) singular<double>(c); else singular<cdouble>(c); }

template <class E> static void by_svd(Case &c) {
  long m = size_n(c, 1, 8, 40), n = c.r.chance(0.4) ? m : size_n(c, 1, 8, 40), k = std::min(m, n), r = k;
  double scale = std::pow(10.0, c.r.in(-12, 9)), cond = std::pow(10.0, c.r.real(0, 3));
  int kind = c.r.below(6);  // 0-2 full rank, 3 deficient with a tolerance, 4 integer deficient, 5 zero
  if (kind == 3) r = c.r.below(k);
  if (kind == 5) r = 0;
  LA U, V, S;
  Arr<E> a(Dims{m, n});
  double tol = 0;
  if (kind == 4) {  // exact low rank: the default tolerance must see it
    m = c.r.in(8, 20); n = c.r.in(8, 20); r = c.r.in(1, 3); scale = 1; cond = 0;
    Arr<E> x(Dims{m, r}), y(Dims{r, n});
    for (long i = 0; i < x.size(); i++) x.v[i] = (double)c.r.in(-2, 2);
    for (long i = 0; i < y.size(); i++) y.v[i] = (double)c.r.in(-2, 2);
    a = down<E>(mul(ref::up(x), ref::up(y)));
  } else {
    std::vector<cld> s(r);
    for (long i = 0; i < r; i++) s[i] = scale * std::pow(cond, -c.r.unit());
    U = isometry<E>(c, m, r); V = isometry<E>(c, n, r);
    S = diagm(s, r, r);
    if (r) a = down<E>(mul(mul(U, S), adj(V)));
    if (kind == 3 || c.r.chance(0.3)) tol = 1e-6 * scale / cond;
  }
  Arr<E> b = rhs<E>(c, m);
  c.what << "solve_with_svd " << tname<E>() << kind << " " << m << "x" << n << " rank " << r << " cond=" << cond << " scale=" << scale << " tol=" << tol << " rhs " << str(b.d);
  c.ready();
  c.saw_what();
  tensor::Tensor<E> ta = to_tensor(a), tb = to_tensor(b);
  tensor::Tensor<E> x = tol == 0 && c.r.chance(0.5) ? linalg::solve_with_svd(ta, tb) : linalg::solve_with_svd(ta, tb, tol);
  Arr<E> gx = from_tensor(x);
  Dims want = b.d;
  want[0] = n;
  CHECK_MSG(c, gx.d == want, "solve_with_svd:dims", str(gx.d) << " expected " << str(want));
  LA X = as_matrix(gx), A = ref::up(a), B = as_matrix(b), R = sub(mul(A, X), B);
  if (kind == 5) { CHECK_MSG(c, fro(X) == 0, "solve_with_svd:zero", "solution of norm " << fro(X)); return; }
  double xn = fro(X), an = fro(A), bn = fro(B);
  long N = m + n;
  if (kind == 4) {
    // least squares: A^H R = 0; least norm: X in the row space, X = A^H (A A^H)^+ ... checked by projection below
    double lim = 2000 * N * EPS * an * (an * xn + bn);
    double res = fro(mul(adj(A), R));
    CHECK_MSG(c, res <= lim, "solve_with_svd:least squares", res << " > " << lim);
    // row space spanned by the rows of A: component of X outside it must vanish
    LA Q(Dims{n, 0});
    for (long i = 0; i < m; i++) {
      LA v(Dims{n, 1});
      for (long j = 0; j < n; j++) v(j, 0) = std::conj(A(i, j));
      double n0 = fro(v);
      if (n0 == 0) continue;
      for (int t = 0; t < 2; t++) if (Q.d[1]) v = sub(v, mul(Q, mul(adj(Q), v)));
      double n1 = fro(v);
      if (n1 < 1e-9 * n0) continue;
      LA q(Dims{n, Q.d[1] + 1});
      std::copy(Q.v.begin(), Q.v.end(), q.v.begin());
      for (long j = 0; j < n; j++) q(j, Q.d[1]) = v(j, 0) / (long double)n1;
      Q = q;
    }
    LA out = Q.d[1] ? sub(X, mul(Q, mul(adj(Q), X))) : X;
    CHECK_MSG(c, fro(out) <= 2000 * N * EPS * (xn + 1e-300), "solve_with_svd:norm", fro(out) << " outside the row space, of " << xn);
  } else if (r) {
    LA W(Dims{r, r});
    for (long i = 0; i < r; i++) W(i, i) = cld(1) / S(i, i);
    LA ref = mul(mul(V, W), mul(adj(U), B));
    double err = fro(sub(X, ref)), lim = 200 * N * EPS * cond * (fro(ref) + cond * fro(B) / scale);
    CHECK_MSG(c, err <= lim, "solve_with_svd", "error " << err << " > " << lim << " of norm " << fro(ref));
    if (r == m) { double res = fro(R), l2 = 500 * N * EPS * cond * (an * xn + bn); CHECK_MSG(c, res <= l2, "solve_with_svd:residual", res << " > " << l2); }
  } else CHECK_MSG(c, xn == 0, "solve_with_svd:zero", "solution of norm " << xn);
  unchanged(c, ta, a, "solve_with_svd");
  unchanged(c, tb, b, "solve_with_svd");
}
FAMILY(P15, by_svd, 20000, 800000) { if (c.r.chance(0.5)) by_svd<double>(c); else by_svd<cdouble>(c); }

template <class E> struct Apply {  // a function object wrapping a matrix; counts its calls
  tensor::Tensor<E> m;
  mutable long calls;
  explicit Apply(const tensor::Tensor<E> &t) : m(t), calls(0) {}
  const tensor::Tensor<E> operator()(const tensor::Tensor<E> &x) const { calls++; return mmult(m, x); }
};
template <class E> static tensor::Tensor<E> &fn_matrix() { static tensor::Tensor<E> *m = new tensor::Tensor<E>; return *m; }
template <class E> static const tensor::Tensor<E> plain_fn(const tensor::Tensor<E> &x) { return mmult(fn_matrix<E>(), x); }

template <class E> static void gradient(Case &c) {
  tensor::set_seed(c.r.next());
  long n = size_n(c, 1, 8, 30);
  bool sized = c.r.chance(0.35);  // coefficients and right hand sides of any size, with a tolerance to match
  double scale = std::pow(10.0, sized ? c.r.in(-11, 11) : c.r.in(-1, 3)), cond = std::pow(10.0, c.r.real(0, 1.3));
  std::vector<cld> s(n);
  for (long i = 0; i < n; i++) s[i] = scale * std::pow(cond, -c.r.unit());
  LA Q = isometry<E>(c, n, n), A0 = mul(mul(Q, diagm(s, n, n)), adj(Q));
  if (c.r.chance(0.2)) A0 = diagm(s, n, n);
  Arr<E> a = down<E>(A0);
  for (long i = 0; i < n; i++) { set(cld(a(i, i)).real(), a(i, i)); for (long j = 0; j < i; j++) a(i, j) = cj(a(j, i)); }
  Arr<E> b = rhs<E>(c, n);
  double bsize = sized ? std::pow(10.0, c.r.in(-11, 11)) : 1;
  for (long i = 0; i < b.size(); i++) b.v[i] *= bsize;
  int how = c.r.below(4), start = c.r.below(4);
  c.what << "cgs " << tname<E>() << how << " start " << start << " n=" << n << " cond=" << cond << " scale=" << scale << " rhs " << str(b.d) << " size=" << bsize;
  c.ready();
  c.saw_what();
  tensor::Tensor<E> ta = to_tensor(a), tb = to_tensor(b), x0(to_indices(b.d));
  if (start == 1) x0.fill_with_zeros();
  if (start == 2) { Arr<E> r(b.d); for (long i = 0; i < r.size(); i++) set(rnd<E>(c) * cld(bsize / scale), r.v[i]); x0 = to_tensor(r); }
  if (start == 3) x0 = linalg::solve(ta, tb);
  const tensor::Tensor<E> *ps = start ? &x0 : 0;
  int maxit = c.r.chance(0.5) ? 0 : 5 * n + 20;
  double tol = c.r.chance(0.5) ? 0 : 1e-9;
  if (sized) { tol = 1e-9 * std::max(norm_fro(b), bsize); maxit = 8 * n + 20; }
  Arr<E> keep = from_tensor(x0);
  tensor::Tensor<E> x;
  Apply<E> f(ta);
  switch (how) {
  case 0: x = linalg::cgs(ta, tb, ps, maxit, tol); break;
  case 1: x = linalg::cgs(sparse_of(a), tb, ps, maxit, tol); break;
  case 2: x = linalg::cgs(f, tb, ps, maxit, tol); break;
  case 3: fn_matrix<E>() = ta; x = linalg::cgs(plain_fn<E>, tb, ps, maxit, tol); break;
  }
  Arr<E> gx = from_tensor(x);
  CHECK_MSG(c, gx.d == b.d, "cgs:dims", str(gx.d) << " expected " << str(b.d));
  LA X = as_matrix(gx), B = as_matrix(b), A = ref::up(a);
  double res = fro(sub(mul(A, X), B)), lim = 1e-7 * (1 + fro(B) + fro(A) * fro(X));
  if (maxit) {  // enough iterations for the tolerance, above the rounding of what it starts from
    LA X0 = as_matrix(keep);
    double first = start ? fro(X0) : fro(B) + 0.1 * std::sqrt((double)b.size());
    lim = (tol ? tol : 1e-10) + 1e-11 * (fro(B) + fro(A) * (fro(X) + first));
  }
  CHECK_MSG(c, res <= lim, "cgs:residual", res << " > " << lim);
  unchanged(c, ta, a, "cgs");
  unchanged(c, tb, b, "cgs");
  if (start) unchanged(c, x0, keep, "cgs start vector");
}
FAMILY(P15, gradient, 20000, 800000) { if (c.r.chance(0.5)) gradient<double>(c); else gradient<cdouble>(c); }

// ---------------------------------------------------------------- P16
// Matrices with known singular values (empty: unknown)
template <class E> static Arr<E> svd_input(Case &c, std::vector<double> &known) {
  long m = size_n(c, 1, 8, 45), n = c.r.chance(0.4) ? m : size_n(c, 1, 8, 45);
  if (c.r.chance(0.0015)) { m = c.r.in(46, 90); n = c.r.in(46, 90); }
  long k = std::min(m, n);
  double scale = std::pow(10.0, c.r.in(-9, 9));
  Arr<E> a(Dims{m, n});
  int kind = c.r.below(8);
  c.what << "kind " << kind << " " << m << "x" << n << " scale " << scale;
  known.clear();
  switch (kind) {
  case 0: for (long i = 0; i < a.size(); i++) { set(rnd<E>(c), a.v[i]); a.v[i] *= scale; } return a;
  case 1: case 2: {  // any spectrum: repeated, zero and graded values
    std::vector<cld> s(k);
    for (long i = 0; i < k; i++) {
      double v = kind == 1 ? std::pow(10.0, -c.r.real(0, 10)) : c.r.pick(std::vector<double>{0, 1, 1, 0.5, 0.5, 1e-3});
      s[i] = v * scale;
      known.push_back(v * scale);
    }
    std::sort(known.rbegin(), known.rend());
    return down<E>(mul(mul(isometry<E>(c, m, k), diagm(s, k, k)), adj(isometry<E>(c, n, k))));
  }
  case 3: known.assign(k, 0); return a;  // zero
  default: {  // blocks of any shapes in permuted rows and columns, empty rows and columns, zero blocks
    std::vector<long> R(m), C(n);
    for (long i = 0; i < m; i++) R[i] = i;
    for (long i = 0; i < n; i++) C[i] = i;
    if (!c.r.chance(0.3)) {
      for (long i = m - 1; i > 0; i--) std::swap(R[i], R[c.r.below(i + 1)]);
      for (long i = n - 1; i > 0; i--) std::swap(C[i], C[c.r.below(i + 1)]);
    }
    long i = 0, j = 0;
    bool square = kind == 4;
    while (i < m && j < n) {
      long h = c.r.in(square ? 1 : 0, 3), w = square ? h : c.r.in(0, 3);
      h = std::min(h, m - i); w = std::min(w, n - j);
      if (square) h = w = std::min(h, w);
      bool zero = c.r.chance(kind == 5 ? 0.3 : 0.03);
      double bs = c.r.chance(0.2) ? 1.0 : std::pow(10.0, -c.r.real(0, 3));
      for (long p = 0; p < h; p++) for (long q = 0; q < w; q++) if (!zero) {
        set(rnd<E>(c), a(R[i + p], C[j + q]));
        a(R[i + p], C[j + q]) *= scale * bs;
        if (c.r.chance(0.1)) a(R[i + p], C[j + q]) = 0;
      }
      i += h; j += w;
    }
    return a;
  }
  }
}
template <class E> static void svd_case(Case &c, bool block) {
  std::vector<double> known;
  c.what << (block ? "block_svd " : "svd ") << tname<E>() << " ";
  Arr<E> a = svd_input<E>(c, known);
  bool eco = c.r.chance(0.5);
  c.what << (eco ? " economic " : " ") << show(a.v, 6);
  c.ready();
  c.saw_what();
  long m = a.d[0], n = a.d[1], k = std::min(m, n);
  typedef tensor::Tensor<E> T;
  T ta = to_tensor(a), U, V;
  std::string key = block ? "block_svd" : "svd";
  RTensor s = block ? linalg::block_svd(ta, &U, &V, eco) : linalg::svd(ta, &U, &V, eco);
  unchanged(c, ta, a, key);
  RA gs = from_tensor(s);
  LA u = up(U), v = up(V), A = ref::up(a);
  CHECK_MSG(c, gs.d == (Dims{k}), key + ":dims", "values " << str(gs.d));
  CHECK_MSG(c, u.d == (Dims{m, eco ? k : m}) && v.d == (Dims{eco ? k : n, n}), key + ":dims", "factors " << str(u.d) << str(v.d));
  for (long i = 0; i < k; i++)
    CHECK_MSG(c, gs.v[i] >= 0 && (i == 0 || gs.v[i] <= gs.v[i - 1]), key + ":order", show(gs));
  double an = fro(A), N = m + n;
  double du = isometry_defect(u), dv = isometry_defect(adj(v));
  CHECK_MSG(c, du <= 100 * N * EPS && dv <= 100 * N * EPS, key + ":isometry", du << " " << dv);
  std::vector<cld> sv(gs.v.begin(), gs.v.end());
  double res = fro(sub(mul(mul(u, diagm(sv, u.d[1], v.d[0])), v), A));
  CHECK_MSG(c, res <= 100 * N * EPS * an, key + ":reconstruction", res << " of " << an);
  for (size_t i = 0; i < known.size(); i++)
    CHECK_MSG(c, std::fabs(known[i] - gs.v[i]) <= 100 * N * EPS * an, key + ":values", show(gs) << " expected " << show(known));
  // fewer outputs, and the other algorithm
  T P, W;
  RTensor s0 = block ? linalg::block_svd(ta, 0, 0, eco) : linalg::svd(ta, 0, 0, eco);
  RTensor s1 = block ? linalg::block_svd(ta, &P, 0, eco) : linalg::svd(ta, &P, 0, eco);
  RTensor s2 = block ? linalg::block_svd(ta, 0, &W, eco) : linalg::svd(ta, 0, &W, eco);
  RTensor s3 = block ? linalg::svd(ta) : linalg::block_svd(ta);
  const RTensor *ss[] = {&s0, &s1, &s2, &s3};
  for (int t = 0; t < 4; t++) {
    RA g = from_tensor(*ss[t]);
    CHECK_MSG(c, g.d == gs.d, key + ":subset", "values " << str(g.d));
    for (long i = 0; i < k; i++)
      CHECK_MSG(c, std::fabs(g.v[i] - gs.v[i]) <= 100 * N * EPS * an, key + (t == 3 ? ":algorithms" : ":subset"), t << show(g) << " and " << show(gs));
  }
  LA p = up(P), w = up(W);
  CHECK_MSG(c, p.d == u.d && w.d == v.d, key + ":subset dims", str(p.d) << str(w.d));
  double dp = isometry_defect(p), dw = isometry_defect(adj(w));
  CHECK_MSG(c, dp <= 100 * N * EPS && dw <= 100 * N * EPS, key + ":subset isometry", dp << " " << dw);
  // P and W are singular vectors of the same matrix: A W^H and A^H P have columns of norms s
  LA AW = mul(A, adj(w)), PA = mul(adj(p), A);
  for (long i = 0; i < k; i++) {
    long double x = 0, y = 0;
    for (long j = 0; j < m; j++) x += std::norm(AW(j, i));
    for (long j = 0; j < n; j++) y += std::norm(PA(i, j));
    CHECK_MSG(c, std::fabs((double)std::sqrt(x) - gs.v[i]) <= 200 * N * EPS * an && std::fabs((double)std::sqrt(y) - gs.v[i]) <= 200 * N * EPS * an,
              key + ":subset vectors", i << ": " << (double)std::sqrt(x) << " " << (double)std::sqrt(y) << " value " << gs.v[i]);
  }
  unchanged(c, ta, a, key);
}
FAMILY(P16, svd, 8000, 300000) { if (c.r.chance(0.5)) svd_case<double>(c, false); else svd_case<cdouble>(c, false); }
FAMILY(P16, block_svd, 12000, 500000) { if (c.r.chance(0.5)) svd_case<double>(c, true); else svd_case<cdouble>(c, true); }

// ---------------------------------------------------------------- P17
// Largest distance in the best greedy matching of two multisets
static double matching(std::vector<cld> x, std::vector<cld> y) {
  double worst = 0;
  while (!x.empty()) {  // pair the globally closest ones first
    size_t bi = 0, bj = 0;
    double best = HUGE_VAL;
    for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < y.size(); j++) {
      double d = absld(x[i] - y[j]);
      if (d < best) { best = d; bi = i; bj = j; }
    }
    if (best == HUGE_VAL) return HUGE_VAL;
    worst = std::max(worst, best);
    x.erase(x.begin() + bi);
    y.erase(y.begin() + bj);
  }
  return worst;
}
static std::vector<cld> vec(const LA &a) { return a.v; }
// A square matrix; if normal, its eigenvalues
template <class E> static Arr<E> eig_input(Case &c, std::vector<cld> &known) {
  long n = size_n(c, 1, 8, 30);
  double scale = std::pow(10.0, c.r.in(-6, 6));
  int kind = c.r.below(8);
  c.what << "kind " << kind << " n=" << n << " scale " << scale;
  known.clear();
  LA a(Dims{n, n});
  switch (kind) {
  case 0: for (long i = 0; i < a.size(); i++) a.v[i] = rnd<E>(c); break;
  case 1: for (long i = 0; i < a.size(); i++) a.v[i] = (double)c.r.in(-2, 2); break;
  case 2: break;  // zero
  case 3:  // triangular, defective now and then
    for (long j = 0; j < n; j++) for (long i = 0; i <= j; i++) a(i, j) = i == j ? cld(c.r.in(-3, 3)) : rnd<E>(c);
    break;
  case 4: {  // cyclic permutation of random weights: roots of unity
    for (long i = 0; i < n; i++) a(i, (i + 1) % n) = 1;
    for (long i = 0; i < n; i++) known.push_back(std::polar((long double)1, 2 * acosl(-1) * i / n));
    break; }
  case 5: case 6: {  // Hermitian, repeated values
    std::vector<cld> d(n);
    for (long i = 0; i < n; i++) d[i] = kind == 5 ? cld(c.r.in(-2, 2)) : cld(c.r.normal());
    known = d;
    LA q = isometry<E>(c, n, n);
    a = mul(mul(q, diagm(d, n, n)), adj(q));
    break; }
  case 7: {  // normal: complex values, in conjugate pairs for real matrices
    LA q = isometry<E>(c, n, n), d(Dims{n, n});
    if (cplx<E>()) for (long i = 0; i < n; i++) { d(i, i) = rnd<E>(c); known.push_back(d(i, i)); }
    else for (long i = 0; i < n; i++) {
      long double x = c.r.normal(), y = c.r.normal();
      if (i + 1 < n && c.r.chance(0.7)) {
        d(i, i) = d(i + 1, i + 1) = x; d(i, i + 1) = y; d(i + 1, i) = -y;
        known.push_back(cld(x, y)); known.push_back(cld(x, -y)); i++;
      } else { d(i, i) = x; known.push_back(x); }
    }
    a = mul(mul(q, d), adj(q));
    break; }
  }
  for (size_t i = 0; i < known.size(); i++) known[i] *= scale;
  return down<E>(scaled(a, scale));
}
template <class E> static void eig_case(Case &c) {
  std::vector<cld> known;
  c.what << "eig " << tname<E>() << " ";
  Arr<E> a = eig_input<E>(c, known);
  c.what << show(a.v, 6);
  c.ready();
  c.saw_what();
  long n = a.d[0];
  tensor::Tensor<E> ta = to_tensor(a);
  CTensor R, L, R1, L1;
  CTensor w = linalg::eig(ta, &R, &L), w0 = linalg::eig(ta), w1 = linalg::eig(ta, &R1), w2 = linalg::eig(ta, 0, &L1);
  unchanged(c, ta, a, "eig");
  LA A = ref::up(a), W = up(w), r = up(R), l = up(L), r1 = up(R1), l1 = up(L1), W1 = up(w1), W2 = up(w2);
  double an = fro(A), lim = 500 * n * EPS * an + 1e-300;
  const LA *ws[] = {&W, &W1, &W2};
  LA W0 = up(w0);
  CHECK_MSG(c, W.d == (Dims{n}) && W0.d == W.d && W1.d == W.d && W2.d == W.d, "eig:dims", str(W.d));
  CHECK_MSG(c, r.d == a.d && l.d == a.d && r1.d == a.d && l1.d == a.d, "eig:dims", str(r.d) << str(l.d));
  for (int t = 0; t < 3; t++) {
    const LA &rr = t == 1 ? r1 : r, &ll = t == 2 ? l1 : l;
    std::vector<cld> d = ws[t]->v;
    if (t != 2) {
      LA res = sub(mul(A, rr), mul(rr, diagm(d, n, n)));
      for (long j = 0; j < n; j++) {
        double e = fro(column(res, j)), u = fro(column(rr, j));
        CHECK_MSG(c, e <= lim, "eig:right", "column " << j << " residual " << e << " of " << an);
        CHECK_MSG(c, std::fabs(u - 1) <= 50 * n * EPS, "eig:unit right", u);
      }
    }
    if (t != 1) {
      LA res = sub(mul(adj(ll), A), mul(diagm(d, n, n), adj(ll)));
      for (long j = 0; j < n; j++) {
        double e = fro(column(adj(res), j)), u = fro(column(ll, j));
        CHECK_MSG(c, e <= lim, "eig:left", "row " << j << " residual " << e << " of " << an);
        CHECK_MSG(c, std::fabs(u - 1) <= 50 * n * EPS, "eig:unit left", u);
      }
    }
  }
  // all eigenvalues with multiplicity: the power sums are the traces of the powers
  LA P = A;
  double pn = an;
  const LA *all[] = {&W, &W0, &W1, &W2};
  for (int k = 1; k <= 4; k++) {
    cld tr = 0;
    for (long i = 0; i < n; i++) tr += P(i, i);
    for (int t = 0; t < 4; t++) {
      cld s = 0;
      for (long i = 0; i < n; i++) s += std::pow(all[t]->v[i], k);
      double e = absld(s - tr);
      CHECK_MSG(c, e <= 500.0 * k * n * n * EPS * pn + 1e-300, "eig:traces", "power " << k << " off by " << e << " of " << pn);
    }
    P = mul(P, A);
    pn *= an;
  }
  if (known.size()) {
    double m = matching(known, vec(W)), m0 = matching(known, vec(W0));
    CHECK_MSG(c, m <= lim && m0 <= lim, "eig:values", "off by " << m << " " << m0 << " of " << an);
  }
  if (!cplx<E>())
    for (int t = 0; t < 4; t++) {
      std::vector<cld> x = all[t]->v, y = x;
      for (long i = 0; i < n; i++) y[i] = std::conj(y[i]);
      CHECK_MSG(c, matching(x, y) == 0, "eig:pairs", "complex eigenvalues of a real matrix without their conjugates");
    }
}
FAMILY(P17, eig, 10000, 400000) { if (c.r.chance(0.5)) eig_case<double>(c); else eig_case<cdouble>(c); }
template <class E> static void eig_sym_case(Case &c) {
  long n = size_n(c, 1, 9, 40);
  double scale = std::pow(10.0, c.r.in(-9, 9));
  int kind = c.r.below(4);
  std::vector<cld> d(n);
  for (long i = 0; i < n; i++) d[i] = scale * (kind == 0 ? (double)c.r.in(-2, 2) : kind == 1 ? c.r.normal() : kind == 2 ? std::pow(10.0, -c.r.real(0, 12)) : 0.0);
  LA q = isometry<E>(c, n, n);
  LA A0 = c.r.chance(0.15) ? diagm(d, n, n) : mul(mul(q, diagm(d, n, n)), adj(q));
  Arr<E> a = down<E>(A0);
  for (long i = 0; i < n; i++) { set(cld(a(i, i)).real(), a(i, i)); for (long j = 0; j < i; j++) a(i, j) = cj(a(j, i)); }
  c.what << "eig_sym " << tname<E>() << kind << " n=" << n << " scale " << scale << show(a.v, 5);
  c.ready();
  c.saw_what();
  tensor::Tensor<E> ta = to_tensor(a), V;
  RTensor w = linalg::eig_sym(ta, &V), w0 = linalg::eig_sym(ta);
  unchanged(c, ta, a, "eig_sym");
  LA A = ref::up(a), v = up(V);
  RA gw = from_tensor(w), g0 = from_tensor(w0);
  CHECK_MSG(c, gw.d == (Dims{n}) && g0.d == (Dims{n}) && v.d == a.d, "eig_sym:dims", str(gw.d) << str(v.d));
  std::vector<double> want;
  for (long i = 0; i < n; i++) want.push_back((double)d[i].real());
  std::sort(want.begin(), want.end());
  double an = fro(A), lim = 100 * n * EPS * an + 1e-300;
  for (long i = 0; i < n; i++) {
    CHECK_MSG(c, i == 0 || (gw.v[i - 1] <= gw.v[i] && g0.v[i - 1] <= g0.v[i]), "eig_sym:order", show(gw));
    CHECK_MSG(c, std::fabs(gw.v[i] - want[i]) <= lim && std::fabs(g0.v[i] - want[i]) <= lim, "eig_sym:values", show(gw) << show(g0) << " expected " << show(want));
  }
  double iso = isometry_defect(v);
  CHECK_MSG(c, iso <= 100 * n * EPS, "eig_sym:unitary", iso);
  std::vector<cld> D(gw.v.begin(), gw.v.end());
  double res = fro(sub(mul(A, v), mul(v, diagm(D, n, n))));
  CHECK_MSG(c, res <= lim, "eig_sym:vectors", res << " of " << an);
}
FAMILY(P17, eig_sym, 10000, 400000) { if (c.r.chance(0.5)) eig_sym_case<double>(c); else eig_sym_case<cdouble>(c); }

// ---------------------------------------------------------------- P18
static double key_of(int type, const cld &z) {  // smaller comes first
  switch (type) {
  case linalg::LargestMagnitude: return -absld(z);
  case linalg::SmallestMagnitude: return absld(z);
  case linalg::LargestReal: return -(double)z.real();
  case linalg::SmallestReal: return (double)z.real();
  case linalg::LargestImaginary: return -(double)z.imag();
  default: return (double)z.imag();
  }
}
static const char *typenames[] = {"LM", "SM", "LR", "SR", "LI", "SI"};
// Operator with known eigenvalues: real symmetric, or complex with moderately conditioned vectors
template <class E> static LA spectral(Case &c, const std::vector<cld> &d, bool normal) {
  long n = d.size();
  LA q = isometry<E>(c, n, n);
  if (!cplx<E>() || normal) return mul(mul(q, diagm(d, n, n)), adj(q));
  // X = Q1 S Q2, inverse known
  LA q2 = isometry<E>(c, n, n), s(Dims{n, n}), si(Dims{n, n});
  for (long i = 0; i < n; i++) { long double x = 1 + 2 * c.r.unit(); s(i, i) = x; si(i, i) = 1 / x; }
  LA X = mul(mul(q, s), q2), Xi = mul(mul(adj(q2), si), adj(q));
  return mul(mul(X, diagm(d, n, n)), Xi);
}
template <class E> static tensor::Tensor<E> call_eigs(int how, const tensor::Tensor<E> &a, const Arr<E> &arr, int type, size_t k, tensor::Tensor<E> *v, bool *conv) {
  Apply<E> f(a);
  switch (how) {
  case 0: return linalg::eigs(a, type, k, v, conv);
  case 1: return linalg::eigs(sparse_of(arr), type, k, v, conv);
  case 2: return linalg::eigs<Apply<E>, tensor::Tensor<E> >(f, a.rows(), type, k, v, conv);
  default: fn_matrix<E>() = a; return linalg::eigs(plain_fn<E>, a.rows(), type, k, v, conv);
  }
}
template <class E> static void eigs_case(Case &c) {
  tensor::set_seed(c.r.next());
  long n = c.r.chance(0.35) ? c.r.in(1, 4) : c.r.chance(0.6) ? c.r.in(5, 12) : c.r.in(13, 40);
  long most = n <= 4 ? n : std::min(n - (cplx<E>() ? 2 : 1), 6L);
  long k = c.r.in(1, most);
  int type = c.r.below(cplx<E>() ? 6 : 4);
  double scale = std::pow(10.0, c.r.in(-3, 3));
  // Up to 20 the Krylov space is the whole space and any spectrum with distinct keys will do.
  // Beyond, a Krylov method may miss values that are not well outside the rest, so the
  // requested end is set apart, and the values nearest zero are not asked for.
  std::vector<cld> d;
  int tries = 0;
  if (n > 20) {
    if (type == linalg::SmallestMagnitude) type = linalg::LargestMagnitude;
    while ((long)d.size() < n) {
      long i = d.size();
      cld z(c.r.real(-1, 1), cplx<E>() ? c.r.real(-1, 1) : 0);
      long double out = 3 + 0.7 * i + 0.2 * c.r.unit();
      if (i < k) switch (type) {
        case linalg::LargestMagnitude: z = cplx<E>() ? std::polar(out, (long double)c.r.real(-3.1, 3.1)) : cld(c.r.chance(0.5) ? out : -out); break;
        case linalg::LargestReal: z = cld(out, z.imag()); break;
        case linalg::SmallestReal: z = cld(-out, z.imag()); break;
        case linalg::LargestImaginary: z = cld(z.real(), out); break;
        default: z = cld(z.real(), -out); break;
      }
      d.push_back(z);
    }
  } else while ((long)d.size() < n) {
    long w = n + 3 + tries++ / 50;
    cld z = cplx<E>() ? cld(c.r.in(-w, w), c.r.in(-w, w)) : cld(c.r.in(-w, w));
    z += cld(0.2 * c.r.unit(), cplx<E>() ? 0.2 * c.r.unit() : 0);
    bool ok = true;
    for (size_t i = 0; i < d.size(); i++) {
      if (absld(d[i] - z) < 0.5) ok = false;
      if (std::fabs(key_of(type, d[i]) - key_of(type, z)) < 0.02) ok = false;
    }
    if (ok) d.push_back(z);
  }
  bool repeated = n <= 4 && c.r.chance(0.2);
  if (repeated) d[n - 1] = d[0];
  for (long i = 0; i < n; i++) d[i] *= scale;
  Arr<E> a = down<E>(spectral<E>(c, d, c.r.chance(0.4) || repeated));
  if (!cplx<E>()) for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) a(i, j) = a(j, i);
  int how = c.r.below(4), start = c.r.below(4);
  c.what << "eigs " << tname<E>() << how << " " << typenames[type] << " n=" << n << " k=" << k << " start " << start << " scale " << scale << (repeated ? " repeated" : "");
  c.ready();
  c.saw_what();
  tensor::Tensor<E> ta = to_tensor(a), v;
  if (start == 1) { Arr<E> x(Dims{n}); for (long i = 0; i < n; i++) set(rnd<E>(c), x.v[i]); v = to_tensor(x); }
  if (start == 2) { Arr<E> x(Dims{n}); x.v[c.r.below(n)] = 1.0; v = to_tensor(x); }
  if (start == 3) { v = tensor::Tensor<E>(n, k); Arr<E> x(Dims{n, k}); for (long i = 0; i < x.size(); i++) set(rnd<E>(c), x.v[i]); v = to_tensor(x); }
  tensor::Tensor<E> other = v;
  Arr<E> before = from_tensor(other);
  bool conv = c.r.chance(0.5), vectors = c.r.chance(0.8);
  tensor::Tensor<E> w = call_eigs<E>(how, ta, a, type, k, vectors ? &v : 0, &conv);
  unchanged(c, ta, a, "eigs");
  unchanged(c, other, before, "eigs: copy of the start vector");
  CHECK_MSG(c, conv, "eigs:not converged", "n=" << n << " k=" << k);
  if (!conv) return;
  mon::shared()->events++;
  LA W = up(w), A = ref::up(a);
  CHECK_MSG(c, W.d == (Dims{k}), "eigs:dims", str(W.d) << " expected " << k);
  std::vector<double> want, got;
  for (long i = 0; i < n; i++) want.push_back(key_of(type, d[i]));
  for (long i = 0; i < k; i++) got.push_back(key_of(type, W.v[i]));
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  double an = fro(A), lim = 1e-9 * an;
  for (long i = 0; i < k; i++)
    CHECK_MSG(c, std::fabs(want[i] - got[i]) <= lim, "eigs:selection", "keys " << show(got) << " expected to begin " << show(std::vector<double>(want.begin(), want.begin() + k)));
  std::vector<cld> sel;
  for (long i = 0; i < n; i++) if (key_of(type, d[i]) <= want[k - 1] + lim) sel.push_back(d[i]);
  double off = matching(W.v, sel);
  CHECK_MSG(c, off <= lim, "eigs:values", "off by " << off << " of " << an);
  if (vectors) {
    LA V = up(v);
    CHECK_MSG(c, V.d == (Dims{n, k}), "eigs:vector dims", str(V.d));
    LA res = sub(mul(A, V), mul(V, diagm(W.v, k, k)));
    for (long j = 0; j < k; j++) {
      double u = fro(column(V, j)), e = fro(column(res, j));
      CHECK_MSG(c, u > 1e-3 && e <= lim * u, "eigs:vectors", "vector " << j << " of norm " << u << " residual " << e);
    }
  }
}
FAMILY(P18, eigs, 14000, 500000) { if (c.r.chance(0.5)) eigs_case<double>(c); else eigs_case<cdouble>(c); }

template <class E> static void power_case(Case &c) {
  tensor::set_seed(c.r.next());
  long n = size_n(c, 1, 8, 25);
  double scale = std::pow(10.0, c.r.chance(0.5) ? c.r.in(-4, 4) : c.r.in(-60, 60)), ratio = c.r.pick(std::vector<double>{0.02, 0.1, 0.5});
  std::vector<cld> d(n);
  cld dom = cplx<E>() ? std::polar((long double)1, (long double)c.r.real(-3.1, 3.1)) : cld(c.r.chance(0.5) ? 1 : -1);
  d[0] = dom * cld(scale);
  for (long i = 1; i < n; i++) d[i] = (cplx<E>() ? std::polar((long double)1, (long double)c.r.real(-3.1, 3.1)) : cld(1)) * cld(c.r.real(-1, 1) * ratio * scale);
  LA A0;
  if (cplx<E>()) A0 = spectral<E>(c, d, c.r.chance(0.3));
  else {  // real, not symmetric in general
    LA q = isometry<E>(c, n, n), q2 = isometry<E>(c, n, n), s(Dims{n, n}), si(Dims{n, n});
    for (long i = 0; i < n; i++) { long double x = 1 + 2 * c.r.unit(); s(i, i) = x; si(i, i) = 1 / x; }
    A0 = mul(mul(mul(mul(q, s), q2), diagm(d, n, n)), mul(mul(adj(q2), si), adj(q)));
  }
  Arr<E> a = down<E>(A0);
  bool left = c.r.chance(0.5);
  int how = c.r.below(left ? 2 : 4), start = c.r.below(2);
  size_t iter = ratio > 0.3 || n <= 2 ? 400 : c.r.chance(0.5) ? 0 : 400;
  c.what << "eig_power " << tname<E>() << (left ? " left " : " right ") << how << " n=" << n << " ratio " << ratio << " scale " << scale << " start " << start << " iter " << iter << " dominant " << cdouble(d[0]);
  c.ready();
  c.saw_what();
  tensor::Tensor<E> ta = to_tensor(a), v;
  if (start) { Arr<E> x(Dims{n}); for (long i = 0; i < n; i++) set(rnd<E>(c), x.v[i]); v = to_tensor(x); }
  tensor::Tensor<E> other = v;
  Arr<E> before = from_tensor(other);
  Apply<E> f(ta);
  E w;
  if (left) w = how ? linalg::eig_power_left(sparse_of(a), &v, iter) : linalg::eig_power_left(ta, &v, iter);
  else switch (how) {
    case 0: w = linalg::eig_power_right(ta, &v, iter); break;
    case 1: w = linalg::eig_power_right(sparse_of(a), &v, iter); break;
    case 2: w = linalg::eig_power(f, (size_t)n, &v, iter); break;
    default: fn_matrix<E>() = ta; w = linalg::eig_power(plain_fn<E>, (size_t)n, &v, iter); break;
  }
  unchanged(c, ta, a, "eig_power");
  unchanged(c, other, before, "eig_power: copy of the start vector");
  Arr<E> gv = from_tensor(v);
  CHECK_MSG(c, gv.d == (Dims{n}), "eig_power:dims", str(gv.d));
  LA V = ref::up(gv), A = ref::up(a);
  V.d = Dims{n, 1};
  if (left) A = transposed(A);  // v A = w v
  double u = fro(V), an = fro(A);
  CHECK_MSG(c, std::fabs(u - 1) <= 50 * n * EPS, "eig_power:unit", u);
  cld lw = ld(w);
  double err = absld(lw - d[0]);
  CHECK_MSG(c, err <= 1e-4 * an, "eig_power:value", "got " << w << " expected " << cdouble(d[0]));
  double res = fro(sub(mul(A, V), scaled(V, 1) ));
  LA R = mul(A, V);
  for (long i = 0; i < n; i++) R(i, 0) -= lw * V(i, 0);
  res = fro(R);
  CHECK_MSG(c, res <= 1e-4 * an, "eig_power:vector", res << " of " << an);
}
// The only eigenvalue is zero: no vector survives n products
template <class E> static void power_nil_case(Case &c) {
  tensor::set_seed(c.r.next());
  long n = size_n(c, 1, 8, 15);
  Arr<E> a(Dims{n, n});
  bool zero = c.r.chance(0.4);
  std::vector<long> p(n);
  for (long i = 0; i < n; i++) { p[i] = i; std::swap(p[i], p[c.r.below(i + 1)]); }
  if (!zero) for (long i = 0; i + 1 < n; i++) if (c.r.chance(0.7)) a(p[i], p[i + 1]) = std::ldexp(1.0, (int)c.r.in(-3, 3));
  bool left = c.r.chance(0.5);
  int how = c.r.below(left ? 2 : 4), start = c.r.below(3);
  size_t iter = c.r.chance(0.5) ? 0 : 50;
  c.what << "eig_power " << tname<E>() << (left ? " left " : " right ") << how << " n=" << n << (zero ? " zero" : " nilpotent") << " start " << start << " iter " << iter << show(a.v, 9);
  c.ready();
  c.saw_what();
  tensor::Tensor<E> ta = to_tensor(a), v;
  if (start == 1) { Arr<E> x(Dims{n}); for (long i = 0; i < n; i++) x.v[i] = c.r.real(0.5, 1.5); v = to_tensor(x); }
  if (start == 2) { Arr<E> x(Dims{n}); x.v[c.r.below(n)] = 1.0; v = to_tensor(x); }
  Apply<E> f(ta);
  E w;
  if (left) w = how ? linalg::eig_power_left(sparse_of(a), &v, iter) : linalg::eig_power_left(ta, &v, iter);
  else switch (how) {
    case 0: w = linalg::eig_power_right(ta, &v, iter); break;
    case 1: w = linalg::eig_power_right(sparse_of(a), &v, iter); break;
    case 2: w = linalg::eig_power(f, (size_t)n, &v, iter); break;
    default: fn_matrix<E>() = ta; w = linalg::eig_power(plain_fn<E>, (size_t)n, &v, iter); break;
  }
  Arr<E> gv = from_tensor(v);
  CHECK_MSG(c, gv.d == (Dims{n}), "eig_power:dims", str(gv.d));
  LA V = ref::up(gv), A = ref::up(a);
  V.d = Dims{n, 1};
  if (left) A = transposed(A);
  double u = fro(V), res = fro(mul(A, V));
  CHECK_MSG(c, std::fabs(u - 1) <= 50 * n * EPS, "eig_power:unit", "zero eigenvalue: norm " << u);
  CHECK_MSG(c, absld(ld(w)) == 0, "eig_power:value", "got " << w << " expected zero");
  CHECK_MSG(c, res == 0, "eig_power:vector", res << " expected zero");
}
FAMILY(P18, nilpotent, 1500, 60000) { if (c.r.chance(0.5)) power_nil_case<double>(c); else power_nil_case<cdouble>(c); }
FAMILY(P18, power, 12000, 500000) { if (c.r.chance(0.5)) power_case<double>(c); else power_case<cdouble>(c); }

// ---------------------------------------------------------------- P19
// Reference exponential and a rounding bound that follows the squarings: the error of X^2 is
// 2 |X| e + n eps |X|^2.
static LA lexp(const LA &a, double &bound) {
  long n = a.d[0];
  double nrm = fro(a);
  int s = 0;
  while (nrm > 1.0 / 32) { nrm /= 2; s++; }
  LA x = scaled(a, std::pow((long double)2, -s)), r = lident(n), t = lident(n);
  for (int k = 1; k <= 18; k++) {
    t = scaled(mul(t, x), 1.0L / k);
    for (long i = 0; i < r.size(); i++) r.v[i] += t.v[i];
  }
  double e = 60.0 * n * EPS * fro(r);
  for (int k = 0; k < s; k++) {
    double f = fro(r);
    e = 2 * f * e + 4.0 * n * EPS * f * f + e * e;
    r = mul(r, r);
  }
  bound = e + 60.0 * n * EPS * fro(r);
  return r;
}
template <class E> static Arr<E> expm_input(Case &c) {
  long n = size_n(c, 1, 6, 14);
  LA a(Dims{n, n});
  int kind = c.r.below(8);
  double norm = std::pow(10.0, c.r.real(-9, 1.3));
  if (c.r.chance(0.3)) norm = c.r.pick(std::vector<double>{0.25, 0.5, 0.49999, 0.50001, 1, 0.99999, 1.00001, 2, 4, 3.9999, 8});
  switch (kind) {
  case 0: break;  // zero
  case 1: for (long i = 0; i < n; i++) a(i, i) = rnd<E>(c); break;
  case 2: for (long j = 0; j < n; j++) for (long i = 0; i < j; i++) a(i, j) = rnd<E>(c); break;  // nilpotent
  case 3: { LA x(Dims{n, n}); for (long i = 0; i < x.size(); i++) x.v[i] = rnd<E>(c); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) a(i, j) = x(i, j) - std::conj(x(j, i)); break; }  // antihermitian
  case 4: for (long j = 0; j < n; j++) for (long i = 0; i <= j; i++) a(i, j) = i == j ? cld(-c.r.unit()) : 5.0L * rnd<E>(c); break;  // nonnormal
  case 5: { LA x(Dims{n, n}); for (long i = 0; i < x.size(); i++) x.v[i] = rnd<E>(c); a = scaled(mul(x, adj(x)), -1); break; }  // negative
  default: for (long i = 0; i < a.size(); i++) a.v[i] = rnd<E>(c);
  }
  double m = 0;
  for (long i = 0; i < n; i++) { double s = 0; for (long j = 0; j < n; j++) s += absld(a(i, j)); m = std::max(m, s); }
  if (kind == 5 && c.r.chance(0.3)) norm = c.r.real(10, 300);
  if (m > 0) a = scaled(a, norm / m);
  c.what << "kind " << kind << " n=" << n << " norm " << (m > 0 ? norm : 0);
  return down<E>(a);
}
static CTensor cexpm(const Arr<double> &a, int order) {
  CA b(a.d);
  for (long i = 0; i < a.size(); i++) b.v[i] = a.v[i];
  return order ? linalg::expm(to_tensor(b), order) : linalg::expm(to_tensor(b));
}
static CTensor cexpm(const Arr<cdouble> &, int) { return CTensor(); }
template <class E> static void expm_case(Case &c) {
  c.what << "expm " << tname<E>() << " ";
  Arr<E> a = expm_input<E>(c);
  int order = c.r.chance(0.7) ? 0 : c.r.in(7, 10);
  c.what << " order " << order << show(a.v, 6);
  c.ready();
  c.saw_what();
  long n = a.d[0];
  LA A = ref::up(a);
  double b1, b2;
  LA X1 = lexp(A, b1), X2 = lexp(scaled(A, -1), b2);
  tensor::Tensor<E> ta = to_tensor(a), x = order ? linalg::expm(ta, order) : linalg::expm(ta), y = linalg::expm(-ta);
  unchanged(c, ta, a, "expm");
  LA gx = up(x), gy = up(y);
  CHECK_MSG(c, gx.d == a.d && gy.d == a.d, "expm:dims", str(gx.d));
  double e1 = fro(sub(gx, X1)), e2 = fro(sub(gy, X2));
  CHECK_MSG(c, e1 <= b1, "expm", "error " << e1 << " > " << b1 << " of " << fro(X1));
  CHECK_MSG(c, e2 <= b2, "expm", "error " << e2 << " > " << b2 << " of " << fro(X2) << " (negative)");
  double inv = fro(sub(mul(gx, gy), lident(n))), lim = b1 * fro(X2) + b2 * fro(X1) + b1 * b2 + n * EPS;
  CHECK_MSG(c, inv <= lim, "expm:inverse", inv << " > " << lim);
  if (!cplx<E>()) {
    LA z = up(cexpm(a, order));
    double e = fro(sub(gx, z));
    CHECK_MSG(c, z.d == a.d && e <= 2 * b1, "expm:real and complex", e << " > " << 2 * b1);
  }
  mon::shared()->events++;
}
FAMILY(P19, expm, 10000, 400000) { if (c.r.chance(0.5)) expm_case<double>(c); else expm_case<cdouble>(c); }
// Exact cases, without the reference above
template <class E> static void expm_exact(Case &c) {
  long n = size_n(c, 1, 7, 20);
  bool nil = c.r.chance(0.5);
  LA a(Dims{n, n}), w = lident(n);
  if (nil) {  // shift with weight x: powers are known
    cld x = cld(c.r.real(-3, 3), cplx<E>() ? c.r.real(-3, 3) : 0);
    Arr<E> t(Dims{1}); set(x, t.v[0]); x = ld(t.v[0]);
    for (long i = 0; i + 1 < n; i++) a(i, i + 1) = x;
    for (long k = 0; k < n; k++) { cld p = 1; for (long q = 1; q <= k; q++) p *= x / (long double)q; for (long i = 0; i + k < n; i++) w(i, i + k) = p; }
  } else for (long i = 0; i < n; i++) {
    cld x = cld(c.r.real(-20, 20), cplx<E>() ? c.r.real(-20, 20) : 0);
    if (c.r.chance(0.1)) x *= 20.0L;
    Arr<E> t(Dims{1}); set(x, t.v[0]); x = ld(t.v[0]);
    a(i, i) = x;
    w(i, i) = std::exp(x);
  }
  Arr<E> in = down<E>(a);
  c.what << "expm " << tname<E>() << (nil ? " shift " : " diagonal ") << n << show(in.v, 8);
  c.ready();
  c.saw_what();
  LA g = up(linalg::expm(to_tensor(in)));
  CHECK_MSG(c, g.d == in.d, "expm:dims", str(g.d));
  double b;
  lexp(a, b);
  for (long i = 0; i < g.size(); i++) {
    double e = absld(g.v[i] - w.v[i]);
    CHECK_MSG(c, e <= b, "expm:known", "element " << i << " off by " << e << " > " << b);
  }
}
FAMILY(P19, known, 8000, 300000) { if (c.r.chance(0.5)) expm_exact<double>(c); else expm_exact<cdouble>(c); }

// Normal matrices without growing modes: the exponential is known from the spectrum, has norm at
// most one and stays accurate to about |A| n eps for norms far beyond those of the reference above.
template <class E> static void expm_normal(Case &c) {
  long n = size_n(c, 1, 6, 14);
  double norm = std::pow(10.0, c.r.real(-3, 5.5));
  bool unitary = c.r.chance(0.6);
  LA q = isometry<E>(c, n, n), d(Dims{n, n}), x(Dims{n, n});
  auto decay = [&] { return unitary || c.r.chance(0.2) ? 0.0 : -norm * (c.r.chance(0.3) ? 1e-3 : 1.0) * c.r.unit(); };
  for (long i = 0; i < n; i++) {
    double w = norm * c.r.real(-1, 1), g = decay();
    if (cplx<E>()) { d(i, i) = cld(g, w); x(i, i) = std::exp(cld(g, w)); }
    else if (i + 1 < n && (unitary || c.r.chance(0.6))) {
      long double f = std::exp((long double)g), co = f * std::cos((long double)w), si = f * std::sin((long double)w);
      d(i, i) = d(i + 1, i + 1) = g; d(i, i + 1) = w; d(i + 1, i) = -w;
      x(i, i) = x(i + 1, i + 1) = co; x(i, i + 1) = si; x(i + 1, i) = -si;
      i++;
    } else { d(i, i) = g; x(i, i) = std::exp((long double)g); }
  }
  if (c.r.chance(0.2)) q = lident(n);
  Arr<E> a = down<E>(mul(mul(q, d), adj(q)));
  LA want = mul(mul(q, x), adj(q));
  int order = c.r.chance(0.8) ? 0 : c.r.in(7, 10);
  c.what << "expm " << tname<E>() << (unitary ? " rotation" : " decaying") << " n=" << n << " norm " << norm << " order " << order << show(a.v, 6);
  c.ready();
  c.saw_what();
  tensor::Tensor<E> ta = to_tensor(a);
  LA g = up(order ? linalg::expm(ta, order) : linalg::expm(ta));
  unchanged(c, ta, a, "expm");
  CHECK_MSG(c, g.d == a.d, "expm:dims", str(g.d));
  double e = fro(sub(g, want)), lim = 100.0 * n * EPS * (1 + fro(d));
  CHECK_MSG(c, e <= lim, "expm:normal", "error " << e << " > " << lim);
}
FAMILY(P19, normal, 8000, 300000) { if (c.r.chance(0.5)) expm_normal<double>(c); else expm_normal<cdouble>(c); }

// ---------------------------------------------------------------- P31
// The eigensolver that asks for one product at a time.
template <class E> struct Solver { typedef linalg::RArpack type; };
template <> struct Solver<cdouble> { typedef linalg::CArpack type; };

struct Problem { std::vector<cld> d; int type; long n, k; double scale; };
// A spectrum whose requested end is set apart when the space is larger than ARPACK's basis
template <class E> static Problem problem(Case &c, long lo, long hi) {
  Problem p;
  p.n = c.r.in(lo, hi);
  p.k = c.r.in(1, std::min(p.n - (cplx<E>() ? 2 : 1), c.r.chance(0.1) ? 14L : 5L));
  p.type = c.r.below(cplx<E>() ? 6 : 4);
  p.scale = std::pow(10.0, c.r.in(-3, 3));
  if (p.n > 20 && p.type == linalg::SmallestMagnitude) p.type = linalg::LargestMagnitude;
  while ((long)p.d.size() < p.n) {
    long i = p.d.size();
    long double out = p.type == linalg::SmallestMagnitude ? 0.05 + 0.1 * i : 3 + 0.7 * i + 0.2 * c.r.unit();
    cld z(c.r.real(-1, 1), cplx<E>() ? c.r.real(-1, 1) : 0);
    if (p.type == linalg::SmallestMagnitude && absld(z) < 0.05 + 0.1 * p.k + 0.3) z = cld(2.0 + 0.1 * i, z.imag());
    if (i < p.k) switch (p.type) {
      case linalg::SmallestMagnitude:
      case linalg::LargestMagnitude: z = cplx<E>() ? std::polar(out, (long double)c.r.real(-3.1, 3.1)) : cld(c.r.chance(0.5) ? out : -out); break;
      case linalg::LargestReal: z = cld(out, z.imag()); break;
      case linalg::SmallestReal: z = cld(-out, z.imag()); break;
      case linalg::LargestImaginary: z = cld(z.real(), out); break;
      default: z = cld(z.real(), -out); break;
    }
    p.d.push_back(z);
  }
  for (long i = 0; i < p.n; i++) p.d[i] *= p.scale;
  return p;
}
template <class E> static Arr<E> operator_of(Case &c, const Problem &p) {
  Arr<E> a = down<E>(spectral<E>(c, p.d, c.r.chance(0.5)));
  if (!cplx<E>()) for (long i = 0; i < p.n; i++) for (long j = 0; j < i; j++) a(i, j) = a(j, i);
  return a;
}
template <class E> static std::vector<E> product(const Arr<E> &a, const E *x) {
  long n = a.d[0];
  std::vector<E> y(n, E(0));
  for (long j = 0; j < n; j++) for (long i = 0; i < n; i++) y[i] += a(i, j) * x[j];
  return y;
}
// One turn of the loop, the product handed over in one of several ways
template <class E, class S> static void one_step(Case &c, S &s, const Arr<E> &a, std::vector<std::pair<tensor::Tensor<E>, Arr<E> > > &kept) {
  long n = a.d[0];
  const E *x = s.get_x_vector();
  std::vector<E> xs(x, x + n), y = product(a, &xs[0]);
  const tensor::Tensor<E> gx = s.get_x();
  CHECK_MSG(c, gx.rank() == 1 && gx.size() == n && std::equal(xs.begin(), xs.end(), gx.begin_const()), "steps:get_x", "not the vector asked for");
  if (kept.size() < 6 && c.r.chance(0.2)) kept.push_back(std::make_pair(gx, from_tensor(gx)));
  switch (c.r.below(4)) {
  case 0: { Arr<E> t(Dims{n}); t.v = y; s.set_y(to_tensor(t)); break; }
  case 1: std::copy(y.begin(), y.end(), s.get_y_vector()); break;
  case 2: { tensor::Tensor<E> t = s.get_y(); c.check(t.rank() == 1 && t.size() == n, "steps:get_y size"); for (long i = 0; i < n; i++) t.at(i) = y[i]; break; }
  default: {  // a wrong answer first, corrected before the next update
    Arr<E> t(Dims{n});
    for (long i = 0; i < n; i++) set(rnd<E>(c), t.v[i]);
    s.set_y(to_tensor(t));
    t.v = y;
    s.set_y(to_tensor(t));
  }
  }
  CHECK_MSG(c, std::equal(y.begin(), y.end(), s.get_y_vector()), "steps:y", "the product handed over is not in its place");
  CHECK_MSG(c, std::equal(xs.begin(), xs.end(), s.get_x_vector()), "steps:x changed", "handing over the product changed the vector");
  mon::shared()->events++;
}
template <class E> static void judge(Case &c, const Problem &p, const Arr<E> &a, const LA &W, const LA *V, double tol) {
  LA A = ref::up(a);
  double lim = tol * fro(A);
  std::vector<double> want, got;
  for (long i = 0; i < p.n; i++) want.push_back(key_of(p.type, p.d[i]));
  for (long i = 0; i < p.k; i++) got.push_back(key_of(p.type, W.v[i]));
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  for (long i = 0; i < p.k; i++)
    CHECK_MSG(c, std::fabs(want[i] - got[i]) <= lim, "steps:selection", "keys " << show(got) << " expected " << show(std::vector<double>(want.begin(), want.begin() + p.k)));
  double off = matching(W.v, p.d);
  CHECK_MSG(c, off <= lim, "steps:values", "off by " << off);
  if (!V) return;
  CHECK_MSG(c, V->d == (Dims{p.n, p.k}), "steps:vector dims", str(V->d));
  LA res = sub(mul(A, *V), mul(*V, diagm(W.v, p.k, p.k)));
  for (long j = 0; j < p.k; j++) {
    double u = fro(column(*V, j)), e = fro(column(res, j));
    CHECK_MSG(c, u > 1e-3 && e <= lim * u, "steps:vectors", "vector " << j << " of norm " << u << " residual " << e);
  }
}
template <class E> static void steps(Case &c) {
  typedef typename Solver<E>::type S;
  tensor::set_seed(c.r.next());
  Problem p = problem<E>(c, cplx<E>() ? 3 : 2, c.r.chance(0.2) ? 60 : 30);
  Arr<E> a = operator_of<E>(c, p);
  bool start = c.r.chance(0.5), back = start && c.r.chance(0.2), abandon = c.r.chance(0.25), twice = c.r.chance(0.3);
  double tol = c.r.chance(0.3) ? std::pow(10.0, -c.r.in(4, 12)) : 0;
  long maxit = c.r.chance(0.2) ? c.r.in(300, 2000) : 0;
  int read = c.r.below(4);
  c.what << "steps " << tname<E>() << " " << typenames[p.type] << " n=" << p.n << " k=" << p.k << " scale " << p.scale << " start " << start << back << " tol " << tol << " maxit " << maxit << " abandoned " << abandon << " read " << read;
  c.ready();
  c.saw_what();
  std::vector<std::pair<tensor::Tensor<E>, Arr<E> > > kept;
  if (abandon) {  // a run left half way does not disturb the next one
    Problem q = problem<E>(c, 5, 40);
    Arr<E> b = operator_of<E>(c, q);
    S other(q.n, (linalg::EigType)q.type, q.k);
    for (long i = c.r.below(30); i >= 0 && other.update() == S::Running; i--) one_step<E>(c, other, b, kept);
  }
  {
    S s(p.n, (linalg::EigType)p.type, p.k);
    c.check(s.get_status() == S::Initialized, "steps:initial status");
    c.check((long)s.get_vector_size() == p.n, "steps:vector size");
    c.check(s.error_message().empty(), "steps:message without an error");
    if (start) {
      std::vector<E> v(p.n);
      double size = c.r.chance(0.3) ? std::pow(10.0, c.r.in(-100, 100)) : 1;  // ARPACK normalises it
      for (long i = 0; i < p.n; i++) set(rnd<E>(c) * cld(size), v[i]);
      s.set_start_vector(&v[0]);
      if (back) s.set_random_start_vector();
      else {  // ARPACK begins from the vector it was given
        std::vector<E> kv = v;
        for (long i = 0; i < p.n; i++) v[i] = E(7);
        c.check(s.update() == S::Running, "steps:first update");
        cld dot(0); long double xx = 0, vv = 0;
        const E *x = s.get_x_vector();
        for (long i = 0; i < p.n; i++) { dot += std::conj(cld(kv[i])) * cld(x[i]); xx += std::norm(cld(x[i])); vv += std::norm(cld(kv[i])); }
        CHECK_MSG(c, absld(dot) >= (1 - 1e-10) * std::sqrt(xx * vv), "steps:start vector", "the first vector asked for is not along the start vector");
        one_step<E>(c, s, a, kept);
      }
    }
    if (s.get_status() == S::Initialized) {
      if (tol) s.set_tolerance(tol);
      if (maxit) s.set_maxiter(maxit);
    } else tol = 0;
    typename S::Status st;
    long products = 0;
    while ((st = s.update()) == S::Running) {
      c.check(s.get_status() == S::Running, "steps:status while running");
      one_step<E>(c, s, a, kept);
      if (++products > 100000) c.fail("steps:endless", "100000 products without an end");
    }
    c.check(s.get_status() == st, "steps:status after");
    CHECK_MSG(c, st == S::Finished, "steps:not finished", "status " << (int)st << " after " << products << " products: " << s.error_message());
    c.check(s.error_message().empty(), "steps:message after success");
    tensor::Tensor<E> v, w;
    LA V;
    double acc = tol ? std::max(100 * std::sqrt((double)p.n) * tol, 1e-9) : 1e-9;
    bool vecs = read != 0;
    if (read == 0) w = s.get_data((tensor::Tensor<E> *)0);
    else if (read == 1) w = s.get_data(&v);
    else if (read == 2) {
      v = tensor::Tensor<E>(p.n, p.k);
      tensor::Tensor<E> copy = v;
      w = s.get_data(v.begin());
    } else {  // into memory that is larger: nothing past n times k is touched
      std::vector<E> z(p.n * p.k + 9, E(-77));
      w = s.get_data(&z[0]);
      for (long i = 0; i < 9; i++) c.check(z[p.n * p.k + i] == E(-77), "steps:written past the vectors");
      Arr<E> t(Dims{p.n, p.k});
      std::copy(z.begin(), z.begin() + p.n * p.k, t.v.begin());
      v = to_tensor(t);
    }
    LA W = up(w);
    CHECK_MSG(c, W.d == (Dims{p.k}), "steps:dims", str(W.d));
    if (vecs) V = up(v);
    // a loose tolerance bounds the residual, and in the complex case the values only through the condition of the vectors
    judge<E>(c, p, a, W, vecs ? &V : 0, acc);
    if (twice) {
      c.check(s.update() == S::Error, "steps:update after the end");
      c.check(s.get_status() == S::Error && !s.error_message().empty(), "steps:error after the end");
    }
  }
  for (size_t i = 0; i < kept.size(); i++) unchanged(c, kept[i].first, kept[i].second, "steps:a kept vector");
}
FAMILY(P31, steps, 6000, 200000) { if (c.r.chance(0.5)) steps<double>(c); else steps<cdouble>(c); }

// Limits: an operator too hard for the number of iterations granted
// The requested end is a cluster of more values than the basis holds, a billionth apart: no number
// of iterations below the default limit tells them apart to machine precision.
template <class E> struct Hopeless {
  std::vector<E> d;
  Hopeless(Case &c, long n, int type) : d(n) {
    long cluster = c.r.in(30, n - 5);
    cld turn = type == linalg::SmallestReal ? cld(-1) : type == linalg::LargestImaginary ? cld(0, 1) : type == linalg::SmallestImaginary ? cld(0, -1) : cld(1);
    for (long i = 0; i < n; i++) set(turn * cld(i < cluster ? 1 - 1e-9L * i : 0.9L * i / n), d[i]);
  }
  const tensor::Tensor<E> operator()(const tensor::Tensor<E> &x) const {
    tensor::Tensor<E> y(x.size());
    for (size_t i = 0; i < d.size(); i++) y.at(i) = d[i] * x[i];
    return y;
  }
};
template <class E> static void limits(Case &c) {
  typedef typename Solver<E>::type S;
  tensor::set_seed(c.r.next());
  long n = c.r.in(60, 150), k = c.r.in(1, 8), maxit = c.r.in(1, 4), ncv = std::min(std::max(2 * k, 20L), n);
  int type = c.r.below(cplx<E>() ? 6 : 4);
  // Some of the values wanted lie far away and converge at once: the others still do not
  long away = type != linalg::SmallestMagnitude && k > 1 && c.r.chance(0.5) ? c.r.in(1, k - 1) : 0;
  c.what << "limits " << tname<E>() << " " << typenames[type] << " n=" << n << " k=" << k << " maxit " << maxit << " away " << away;
  c.ready();
  c.saw_what();
  // Evenly spaced values: a basis of this size cannot resolve the ends to machine precision in so few iterations
  S s(n, (linalg::EigType)type, k);
  s.set_maxiter(maxit);
  std::vector<E> v(n, E(1)), d(n);
  for (long i = 0; i < n; i++) set(cld(1 + i, cplx<E>() ? (i * 37 % n) : 0), d[i]);
  cld turn = type == linalg::SmallestReal ? cld(-1) : type == linalg::LargestImaginary ? cld(0, 1) : type == linalg::SmallestImaginary ? cld(0, -1) : cld(1);
  for (long i = 0; i < away; i++) set(turn * cld(1e4L * (i + 1)), d[(7 * i + 3) % n]);
  s.set_start_vector(&v[0]);
  long products = 0;
  typename S::Status st;
  while ((st = s.update()) == S::Running) {
    const E *x = s.get_x_vector();
    E *y = s.get_y_vector();
    for (long i = 0; i < n; i++) y[i] = d[i] * x[i];
    products++;
    mon::shared()->events++;
    if (products > 5 * ncv * (maxit + 2)) c.fail("limits:endless", "more products than the iterations granted allow");
  }
  CHECK_MSG(c, st == S::TooManyIterations, "limits:status", "status " << (int)st << " after " << products << " products");
  c.check(s.get_status() == st && !s.error_message().empty(), "limits:message");
  CHECK_MSG(c, products <= ncv * (maxit + 1) + 2 && products >= ncv - 1, "limits:products", products << " products for " << maxit << " iterations with a basis of " << ncv);
  c.check(s.update() == S::Error, "limits:update after the end");
}
FAMILY(P31, limits, 1500, 40000) { if (c.r.chance(0.5)) limits<double>(c); else limits<cdouble>(c); }

template <class E> static void hopeless(Case &c) {
  tensor::set_seed(c.r.next());
  long n = c.r.in(40, 90), k = c.r.in(1, 5);
  int type = c.r.below(cplx<E>() ? 6 : 4);
  if (type == linalg::SmallestMagnitude) type = linalg::LargestMagnitude;
  bool child = c.r.chance(0.4);
  Hopeless<E> f(c, n, type);
  c.what << "hopeless " << tname<E>() << " " << typenames[type] << " n=" << n << " k=" << k << " child " << child;
  c.ready();
  c.saw_what();
  Arr<E> start(Dims{n});
  for (long i = 0; i < n; i++) set(rnd<E>(c), start.v[i]);
  tensor::Tensor<E> v = to_tensor(start);
  mon::ChildEnd e;
  if (child) e = mon::run_child([&] { tensor::Tensor<E> u = v; linalg::eigs<Hopeless<E>, tensor::Tensor<E> >(f, n, type, k, &u, 0); });
  bool conv = c.r.chance(0.5);
  tensor::Tensor<E> w = linalg::eigs<Hopeless<E>, tensor::Tensor<E> >(f, n, type, k, &v, &conv);
  if (child && !e.timeout) CHECK_MSG(c, conv ? e.returned : e.aborted(), "hopeless:without the flag", (conv ? "converged with it, without it: " : "did not converge with it, without it: ") << e.text());
  Arr<E> W = from_tensor(w);
  CHECK_MSG(c, W.d == (Dims{k}), "hopeless:dims", str(W.d));
  if (!conv) {
    for (long i = 0; i < k; i++) CHECK_MSG(c, W.v[i] == E(0), "hopeless:values", "value " << i << " is not zero");
    mon::shared()->events++;
  } else {
    Arr<E> V = from_tensor(v);
    CHECK_MSG(c, V.d == (Dims{n, k}), "hopeless:vector dims", str(V.d));
    for (long j = 0; j < k; j++) {
      long double u = 0, off = 0;
      for (long i = 0; i < n; i++) { u += std::norm(cld(V(i, j))); off += std::norm(cld(f.d[i]) * cld(V(i, j)) - cld(W.v[j]) * cld(V(i, j))); }
      CHECK_MSG(c, u > 0.25 && off <= 1e-18L * u, "hopeless:said to converge", "vector " << j << " of norm " << (double)std::sqrt(u) << " residual " << (double)std::sqrt(off));
    }
  }
}
FAMILY(P31, hopeless, 150, 4000) { if (c.r.chance(0.5)) hopeless<double>(c); else hopeless<cdouble>(c); }

// Calls out of turn
template <class E> static void out_of_turn(Case &c) {
  typedef typename Solver<E>::type S;
  tensor::set_seed(c.r.next());
  Problem p = problem<E>(c, 5, 20);
  Arr<E> a = operator_of<E>(c, p);
  int kind = c.r.below(13), when = c.r.below(3);  // fresh, running, finished
  long off = c.r.chance(0.5) ? 1 : c.r.in(1, 40), pos = c.r.below(12);
  c.what << "out of turn " << tname<E>() << " kind " << kind << " when " << when << " n=" << p.n << " k=" << p.k << " off " << off << " pos " << pos;
  c.ready();
  c.saw_what();
  std::vector<E> v(p.n, E(1));
  long n = p.n, k = p.k;
  linalg::EigType type = (linalg::EigType)p.type;
  switch (kind) {
  case 0: mon::expect_abort(c, "nev:0", [&] { S s(n, type, 0); }); return;
  case 1: mon::expect_abort(c, "nev:too many", [&] { S s(n, type, n - 1 + off); }); return;
  case 2: mon::expect_abort(c, "selector:unknown", [&] { S s(n, (linalg::EigType)(5 + off), k); s.update(); }); return;
  case 6: if (when == 0) { long m = c.r.in(1, 12); tensor::Tensor<E> M = tensor::Tensor<E>::eye(m); int bad = c.r.chance(0.5) ? 5 + off : -off; mon::expect_abort(c, "selector:eigs", [&] { linalg::eigs(M, bad, 1); }); return; } break;
  case 3: mon::expect_abort(c, "selector:negative", [&] { S s(n, (linalg::EigType)(-off), k); s.update(); }); return;
  case 4: if (!cplx<E>()) { mon::expect_abort(c, "selector:imaginary", [&] { S s(n, off % 2 ? linalg::LargestImaginary : linalg::SmallestImaginary, k); }); return; }
          kind = 5; break;
  case 5: mon::expect_abort(c, "start:zero", [&] { std::vector<E> z(n, E(0)); S s(n, type, k); s.set_start_vector(&z[0]); s.update(); }); return;
  }
  S s(n, type, k);
  std::vector<std::pair<tensor::Tensor<E>, Arr<E> > > kept;
  if (when >= 1) {
    c.check(s.update() == S::Running, "out of turn:first update");
    for (long i = 0; when == 2 || i < pos; i++) {
      one_step<E>(c, s, a, kept);
      if (s.update() != S::Running) break;
    }
  }
  bool running = s.get_status() == S::Running;
  Arr<E> y(Dims{n + off}), small(Dims{std::max(0L, n - off)});
  tensor::Tensor<E> ty = to_tensor(y), tsmall = to_tensor(small), right = to_tensor(Arr<E>(Dims{n}));
  switch (kind) {
  case 6: if (s.get_status() != S::Initialized) mon::expect_abort(c, "start vector late", [&] { s.set_start_vector(&v[0]); }); break;
  case 7: if (s.get_status() != S::Initialized) mon::expect_abort(c, "tolerance late", [&] { s.set_tolerance(1e-8); }); break;
  case 8: if (s.get_status() != S::Initialized) mon::expect_abort(c, "maxiter late", [&] { s.set_maxiter(500); }); break;
  case 9: if (!running) mon::expect_abort(c, "x out of the loop", [&] { if (off % 2) s.get_x(); else s.get_x_vector(); }); break;
  case 10: if (!running) mon::expect_abort(c, "y out of the loop", [&] { if (off % 2) s.get_y(); else s.get_y_vector(); }); break;
  case 11: if (!running) mon::expect_abort(c, "set_y out of the loop", [&] { s.set_y(right); }); break;
  case 12: if (running) { mon::expect_abort(c, "set_y too long", [&] { s.set_y(ty); }); mon::expect_abort(c, "set_y too short", [&] { s.set_y(tsmall); }); } break;
  }
  // The refusals happened in children: this run goes on to its end
  if (when == 1 && running) {
    do one_step<E>(c, s, a, kept); while (s.update() == S::Running);
    c.check(s.get_status() == S::Finished, "out of turn:end");
  }
  for (size_t i = 0; i < kept.size(); i++) unchanged(c, kept[i].first, kept[i].second, "out of turn:a kept vector");
}
FAMILY(P31, out_of_turn, 1500, 40000) { if (c.r.chance(0.5)) out_of_turn<double>(c); else out_of_turn<cdouble>(c); }

// Operators may keep the vectors they are given, and give away the ones they keep
template <class E> struct Keeper {
  tensor::Tensor<E> m;
  std::vector<std::pair<tensor::Tensor<E>, Arr<E> > > *seen;
  mutable mon::Rng r;
  const tensor::Tensor<E> operator()(const tensor::Tensor<E> &x) const {
    for (size_t i = 0; i < seen->size(); i++) {
      Arr<E> now = from_tensor((*seen)[i].first);
      if (now.v != (*seen)[i].second.v) (*seen)[i].second.d = Dims{-1};  // reported by the case
    }
    tensor::Tensor<E> y = mmult(m, x);
    if (r.chance(0.4) && seen->size() < 12) {
      seen->push_back(std::make_pair(x, from_tensor(x)));
      seen->push_back(std::make_pair(y, from_tensor(y)));
    }
    return y;
  }
};
template <class E> static void keeps(Case &c) {
  tensor::set_seed(c.r.next());
  Problem p = problem<E>(c, cplx<E>() ? 3 : 2, 30);
  Arr<E> a = operator_of<E>(c, p);
  int how = c.r.below(3);
  c.what << "keeps " << tname<E>() << how << " " << typenames[p.type] << " n=" << p.n << " k=" << p.k << " scale " << p.scale;
  c.ready();
  c.saw_what();
  std::vector<std::pair<tensor::Tensor<E>, Arr<E> > > seen;
  Keeper<E> f = {to_tensor(a), &seen, mon::Rng(c.r.next())};
  if (how < 2) {
    bool conv = false;
    tensor::Tensor<E> v, w = linalg::eigs<Keeper<E>, tensor::Tensor<E> >(f, p.n, p.type, p.k, how ? &v : 0, &conv);
    if (conv) { LA W = up(w), V; if (how) V = up(v); judge<E>(c, p, a, W, how ? &V : 0, 1e-9); }
  } else {
    // (A^H A + 1) x = b
    LA A = ref::up(a), B = mul(adj(A), A);
    for (long i = 0; i < p.n; i++) B(i, i) += 1.0L;
    f.m = to_tensor(down<E>(B));
    Arr<E> b(Dims{p.n});
    for (long i = 0; i < p.n; i++) set(rnd<E>(c), b.v[i]);
    tensor::Tensor<E> tb = to_tensor(b), x = linalg::cgs<Keeper<E>, tensor::Tensor<E> >(f, tb, 0, 3);
    c.check(x.size() == p.n, "keeps:size");
    unchanged(c, tb, b, "keeps:right hand side");
  }
  for (size_t i = 0; i < seen.size(); i++) {
    c.check(seen[i].second.d[0] >= 0, "keeps:changed during the run");
    unchanged(c, seen[i].first, seen[i].second, i % 2 ? "keeps:product" : "keeps:argument");
  }
  mon::shared()->events += seen.size();
}
FAMILY(P31, keeps, 3000, 80000) { if (c.r.chance(0.5)) keeps<double>(c); else keeps<cdouble>(c); }

// sort_values: the order of any set of values by any selector
FAMILY(P31, sorting, 8000, 200000) {
  long n = c.r.in(0, c.r.chance(0.2) ? 200 : 12);
  int type = c.r.below(6);
  Arr<cdouble> z(Dims{n});
  bool coarse = c.r.chance(0.4);
  double scale = std::pow(10.0, c.r.in(-100, 100));
  for (long i = 0; i < n; i++) z.v[i] = coarse ? cdouble(c.r.in(-2, 2), c.r.in(-2, 2)) : cdouble(c.r.normal() * scale, c.r.normal() * scale);
  bool complex = c.r.chance(0.5);
  c.what << "sorting " << typenames[type] << " n=" << n << (coarse ? " ties" : "") << " first " << (n ? z.v[0] : 0.0);
  c.ready();
  c.saw_what();
  tensor::CTensor t = to_tensor(z);
  tensor::Indices ndx = complex ? linalg::CArpack::sort_values(t, (linalg::EigType)type) : linalg::RArpack::sort_values(t, (linalg::EigType)type);
  CHECK_MSG(c, (long)ndx.size() == n, "sorting:size", ndx.size());
  std::vector<int> seen(n, 0);
  for (long i = 0; i < n; i++) {
    CHECK_MSG(c, ndx[i] >= 0 && ndx[i] < n && !seen[ndx[i]]++, "sorting:permutation", "index " << ndx[i] << " at " << i);
    if (i) {
      double a = key_of(type, cld(z.v[ndx[i - 1]])), b = key_of(type, cld(z.v[ndx[i]]));
      CHECK_MSG(c, a <= b + 4e-16 * std::max(std::fabs(a), std::fabs(b)), "sorting:order", "keys " << a << " then " << b);
    }
  }
  unchanged(c, t, z, "sorting");
  mon::shared()->events++;
}
MON_MAIN
