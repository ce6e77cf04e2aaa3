// P13 form and contents of sparse matrices, P14 sparse algebra against dense algebra.
#include "ref.h"
using namespace ref;

template <class E> struct Sp { typedef tensor::Sparse<E> type; };
template <class E> static std::string tname() { return sizeof(E) > 8 ? "C" : "R"; }

// What a sparse matrix says it is, read from its parts alone.
template <class E> static void canonical(Case &c, const tensor::Sparse<E> &s, const std::string &key) {
  Dims d = from_indices(s.priv_dims()), rs = from_indices(s.priv_row_start()), col = from_indices(s.priv_column());
  CHECK_MSG(c, d.size() == 2 && d[0] >= 0 && d[1] >= 0, key + ":form", "dimensions " << str(d));
  CHECK_MSG(c, from_indices(s.dimensions()) == d && s.rows() == d[0] && s.columns() == d[1] && s.dimension(0) == d[0] && s.dimension(1) == d[1],
            key + ":form", "dimensions disagree " << str(d));
  CHECK_MSG(c, (long)rs.size() == d[0] + 1, key + ":form", "row offsets " << str(rs) << " for " << str(d));
  CHECK_MSG(c, rs[0] == 0, key + ":form", "row offsets " << str(rs));
  for (long i = 0; i < d[0]; i++) CHECK_MSG(c, rs[i] <= rs[i + 1], key + ":form", "row offsets " << str(rs));
  long n = rs[d[0]];
  CHECK_MSG(c, (long)col.size() == n && s.priv_data().size() == n && s.length() == n, key + ":form",
            "offsets end at " << n << " columns " << col.size() << " data " << s.priv_data().size() << " length " << s.length());
  for (long i = 0; i < d[0]; i++)
    for (long k = rs[i]; k < rs[i + 1]; k++) {
      CHECK_MSG(c, col[k] >= 0 && col[k] < d[1], key + ":form", "column " << col[k] << " of " << str(d));
      CHECK_MSG(c, k == rs[i] || col[k - 1] < col[k], key + ":form", "columns of row " << i << " not increasing: " << str(col));
    }
  CHECK_MSG(c, s.is_empty() == (d[0] == 0 || d[1] == 0), key + ":form", "is_empty " << s.is_empty() << " for " << str(d));
}
template <class E> static Arr<E> dense(const tensor::Sparse<E> &s) {  // own expansion
  Dims d = from_indices(s.priv_dims()), rs = from_indices(s.priv_row_start()), col = from_indices(s.priv_column());
  Arr<E> a(d);
  for (long i = 0; i < d[0]; i++)
    for (long k = rs[i]; k < rs[i + 1]; k++) a(i, col[k]) = s.priv_data()[k];
  return a;
}
template <class E> static void expect_sparse(Case &c, const tensor::Sparse<E> &s, const VA &w, const std::string &key) {
  canonical(c, s, key);
  Arr<E> a = dense(s);
  CHECK_MSG(c, a.d == w.d, key + ":dims", str(a.d) << " expected " << str(w.d));
  for (long i = 0; i < a.size(); i++)
    CHECK_MSG(c, near(a.v[i], w.v[i].v, tol(w.v[i])), key, "element " << i << " of " << str(a.d) << " is " << a.v[i] << " expected " << cdouble(w.v[i].v));
}
template <class E> static VA exact(const Arr<E> &a) {
  VA w(a.d);
  for (long i = 0; i < a.size(); i++) w.v[i].v = ld(a.v[i]);
  return w;
}
// A dense array with some zeros and empty rows and columns
template <class E> static Arr<E> holes(Case &c, const Dims &d, Kind k) {
  Arr<E> a = random_arr<E>(c.r, d, k);
  double density = c.r.pick(std::vector<double>{0, 0.05, 0.2, 0.5, 0.9, 1});
  for (size_t i = 0; i < a.v.size(); i++) if (!c.r.chance(density)) a.v[i] = 0;
  if (a.size()) {
    if (c.r.chance(0.2)) { long i = c.r.pick(std::vector<long>{0, d[0] - 1, d[0] / 2}); for (long j = 0; j < d[1]; j++) a(i, j) = 0; }
    if (c.r.chance(0.2)) { long j = c.r.pick(std::vector<long>{0, d[1] - 1, d[1] / 2}); for (long i = 0; i < d[0]; i++) a(i, j) = 0; }
  }
  for (size_t i = 0; i < a.v.size(); i++) if (a.v[i] == E(0)) a.v[i] = 0;
  return a;
}
static Dims mdims(Case &c, double p0 = 0.06) {
  if (c.r.chance(0.004)) return Dims{c.r.in(40, 150), c.r.in(40, 150)};
  if (c.r.chance(0.04)) return Dims{c.r.in(10, 40), c.r.in(10, 40)};
  return random_dims(c.r, 2, p0, 300);
}
static Kind vkind(Case &c) { return c.r.chance(0.47) ? INTS : c.r.chance(0.15) ? WIDE : REALS; }
template <class E> static tensor::Sparse<E> build(Case &c, const Arr<E> &a, int how) {
  long n = 0;
  Dims rs(1), ci;
  std::vector<E> v;
  for (long i = 0; i < a.d[0]; i++) {
    for (long j = 0; j < a.d[1]; j++)
      if (a(i, j) != E(0)) { ci.push_back(j); v.push_back(a(i, j)); n++; }
    rs.push_back(n);
  }
  Arr<E> data(Dims{n});
  data.v = v;
  if (how == 0) return tensor::Sparse<E>(to_tensor(a));
  if (how == 1) return tensor::Sparse<E>(to_indices(a.d), to_indices(rs), to_indices(ci), to_tensor(data));
  Dims ri;
  for (long i = 0; i < a.d[0]; i++) for (long k = rs[i]; k < rs[i + 1]; k++) ri.push_back(i);
  for (long k = n - 1; k > 0; k--) {  // any order
    long j = c.r.below(k + 1);
    std::swap(ri[k], ri[j]); std::swap(ci[k], ci[j]); std::swap(data.v[k], data.v[j]);
  }
  return tensor::Sparse<E>(to_indices(ri), to_indices(ci), to_tensor(data), a.d[0], a.d[1]);
}
template <class E> static tensor::Sparse<E> any_build(Case &c, const Arr<E> &a) {
  int how = c.r.below(3);
  c.what << " (built " << how << ")";
  return build(c, a, how);
}
template <class E> static void readings(Case &c, const tensor::Sparse<E> &s, const Arr<E> &a, const std::string &key) {
  canonical(c, s, key);
  expect_equal0<E>(c, full(s), a, key + ":full");
  CHECK_MSG(c, equal0(dense(s), a), key + ":contents", show(dense(s)) << " expected " << show(a));
  for (long i = 0; i < a.d[0]; i++)
    for (long j = 0; j < a.d[1]; j++) {
      E g = s(neg(c.r, i, a.d[0]), neg(c.r, j, a.d[1]));
      CHECK_MSG(c, equal0(g, a(i, j)), key + ":element", "(" << i << "," << j << ") is " << g << " expected " << a(i, j));
    }
}

// ---------------------------------------------------------------- P13
template <class E> static void built(Case &c) {
  Dims d = mdims(c);
  Arr<E> a = holes<E>(c, d, c.r.chance(0.2) ? SPECIAL : vkind(c));
  int how = c.r.below(3);
  c.what << "sparse " << tname<E>() << str(d) << " built " << how << " from " << show(a.v, 8);
  c.ready();
  c.saw_what();
  tensor::Tensor<E> t = to_tensor(a);
  tensor::Sparse<E> s = how ? build(c, a, how) : tensor::Sparse<E>(t);
  long nz = 0;
  for (long i = 0; i < a.size(); i++) nz += a.v[i] != E(0);
  readings(c, s, a, "built");
  CHECK_MSG(c, s.length() == nz, "built:length", s.length() << " expected " << nz);
  expect_same(c, t, a, "built:operand");
  tensor::Sparse<E> u(s), v;
  readings(c, u, a, "copy");
  v = s;
  readings(c, v, a, "assigned");
  readings(c, tensor::Sparse<E>(full(s)), a, "round trip");
  v = tensor::Sparse<E>();
  CHECK_MSG(c, v.rows() == 0 && v.columns() == 0 && v.length() == 0 && v.is_empty(), "default", v.rows() << "x" << v.columns());
  readings(c, u, a, "copy kept");
}
FAMILY(P13, built, 20000, 1000000) { if (c.r.chance(0.5)) built<double>(c); else built<cdouble>(c); }

template <class E> static void coordinates(Case &c) {
  long n = c.r.chance(0.1) ? 0 : c.r.in(1, 14);
  long R = c.r.in(1, 6), C = c.r.in(1, 6), nr = 0, nc = 0;
  Dims ri(n), ci(n);
  Arr<E> data(Dims{n});
  for (long k = 0; k < n; k++) {
    ri[k] = c.r.below(R); ci[k] = c.r.below(C);
    nr = std::max(nr, ri[k] + 1); nc = std::max(nc, ci[k] + 1);
    gen(c.r, REALS, data.v[k]);
    if (c.r.chance(0.1)) data.v[k] = 0;
  }
  bool given = c.r.chance(0.6);
  long gr = given ? c.r.in(0, 8) : 0, gc = given ? c.r.in(0, 8) : 0;
  Dims d{std::max(nr, gr), std::max(nc, gc)};
  c.what << "coordinates " << tname<E>() << str(ri) << str(ci) << show(data.v, 5) << " given " << gr << "x" << gc;
  c.ready();
  c.saw_what();
  tensor::Sparse<E> s = given ? tensor::Sparse<E>(to_indices(ri), to_indices(ci), to_tensor(data), gr, gc)
                              : tensor::Sparse<E>(to_indices(ri), to_indices(ci), to_tensor(data));
  canonical(c, s, "coordinates");
  CHECK_MSG(c, s.rows() == d[0] && s.columns() == d[1], "coordinates:dims", s.rows() << "x" << s.columns() << " expected " << str(d));
  Arr<E> g = dense(s);
  expect_equal0<E>(c, full(s), g, "coordinates:full");
  for (long i = 0; i < d[0]; i++)
    for (long j = 0; j < d[1]; j++) {
      bool ok = false, any = false;  // a repeated position holds one of its values
      for (long k = 0; k < n; k++)
        if (ri[k] == i && ci[k] == j) { any = true; ok = ok || equal0(g(i, j), data.v[k]); }
      CHECK_MSG(c, any ? ok : g(i, j) == E(0), "coordinates", "(" << i << "," << j << ") is " << g(i, j));
    }
}
FAMILY(P13, coordinates, 20000, 1000000) { if (c.r.chance(0.5)) coordinates<double>(c); else coordinates<cdouble>(c); }

template <class E> static void special(Case &c) {
  long r = c.r.chance(0.1) ? 0 : c.r.in(1, 9), k = c.r.chance(0.1) ? 0 : c.r.in(1, 9);
  int how = c.r.below(5);
  double den = how == 3 ? c.r.pick(std::vector<double>{0.05, 0.2, 0.5, 1.0}) : 0.2;
  c.what << "special " << tname<E>() << how << " " << r << "x" << k << " " << den;
  c.ready();
  c.saw_what();
  Arr<E> w(Dims{r, k});
  if (how <= 1) {
    if (how == 1) { k = r; w = Arr<E>(Dims{r, r}); }
    for (long i = 0; i < std::min(r, k); i++) w(i, i) = 1.0;
    tensor::Sparse<E> s = how ? tensor::Sparse<E>::eye(r) : tensor::Sparse<E>::eye(r, k);
    readings(c, s, w, "eye");
    CHECK_MSG(c, s.length() == std::min(r, k), "eye:length", s.length());
  } else if (how <= 3) {
    tensor::Sparse<E> s = how == 3 ? tensor::Sparse<E>::random(r, k, den) : tensor::Sparse<E>::random(r, k);
    canonical(c, s, "random");
    CHECK_MSG(c, s.rows() == r && s.columns() == k, "random:dims", s.rows() << "x" << s.columns());
    Arr<E> g = dense(s);
    readings(c, s, g, "random");
    for (long i = 0; i < s.length(); i++)
      CHECK_MSG(c, mag(s.priv_data()[i]) <= 1 + 4 * EPS && s.priv_data()[i] != E(0), "random:values", "stored " << s.priv_data()[i]);
  } else {
    tensor::Sparse<E> s(r, k);
    readings(c, s, w, "zero");
    CHECK_MSG(c, s.length() == 0, "zero:length", s.length());
    tensor::Sparse<E> p(r, k, c.r.in(0, r * k));  // room only
    expect_equal0<E>(c, full(p), w, "preallocated");
    CHECK_MSG(c, p.length() == 0, "preallocated:length", p.length());
  }
}
FAMILY(P13, special, 10000, 500000) { if (c.r.chance(0.5)) special<double>(c); else special<cdouble>(c); }

// Chains of operations: every intermediate result must be well formed and mean what the model says.
template <class E> static Arr<E> tr(const Arr<E> &a, bool conj_) {
  Arr<E> o(Dims{a.d[1], a.d[0]});
  for (long i = 0; i < a.d[0]; i++) for (long j = 0; j < a.d[1]; j++) o(j, i) = conj_ ? cj(a(i, j)) : a(i, j);
  return o;
}
template <class E> static void chain(Case &c) {
  typedef tensor::Sparse<E> S;
  Dims d = mdims(c, 0.03);
  std::vector<S> s;
  std::vector<Arr<E> > m;
  for (int i = 0; i < 2; i++) { m.push_back(holes<E>(c, d, INTS)); }
  c.what << "chain " << tname<E>() << str(d) << show(m[0].v, 6) << show(m[1].v, 6);
  for (int i = 0; i < 2; i++) s.push_back(any_build(c, m[i]));
  int steps = c.r.in(2, 7);
  std::vector<int> ops;
  for (int i = 0; i < steps; i++) { ops.push_back(c.r.below(8)); c.what << " " << ops[i]; }
  c.ready();
  c.saw_what();
  for (int i = 0; i < steps; i++) {
    size_t x = c.r.below(s.size()), y = c.r.below(s.size());
    if (norm_inf_all(m[x]) > 1e5 || norm_inf_all(m[y]) > 1e5) break;  // keeps the model exact
    bool same_d = m[x].d == m[y].d;
    S t;
    Arr<E> w;
    switch (ops[i]) {
    case 0: if (!same_d) continue; t = s[x] + s[y]; w = m[x]; for (long k = 0; k < w.size(); k++) w.v[k] += m[y].v[k]; break;
    case 1: if (!same_d) continue; t = s[x] - s[y]; w = m[x]; for (long k = 0; k < w.size(); k++) w.v[k] -= m[y].v[k]; break;
    case 2: if (!same_d) continue; t = s[x] * s[y]; w = m[x]; for (long k = 0; k < w.size(); k++) w.v[k] *= m[y].v[k]; break;
    case 3: t = transpose(s[x]); w = tr(m[x], false); break;
    case 4: t = adjoint(s[x]); w = tr(m[x], true); break;
    case 5: { E f = (double)c.r.in(-2, 2); t = s[x] * f; w = m[x]; for (long k = 0; k < w.size(); k++) w.v[k] *= f; break; }
    case 6: t = -s[x]; w = m[x]; for (long k = 0; k < w.size(); k++) w.v[k] = -w.v[k]; break;
    case 7: if (m[x].size() * m[y].size() > 3000) continue; {
      t = kron(s[x], s[y]);
      Dims e{m[x].d[0] * m[y].d[0], m[x].d[1] * m[y].d[1]};
      w = Arr<E>(e);
      for (long a = 0; a < m[x].d[0]; a++) for (long b = 0; b < m[x].d[1]; b++) for (long p = 0; p < m[y].d[0]; p++) for (long q = 0; q < m[y].d[1]; q++)
        w(a * m[y].d[0] + p, b * m[y].d[1] + q) = m[x](a, b) * m[y](p, q);
      break; }
    }
    mon::shared()->events++;
    readings(c, t, w, "chain:op" + std::to_string(ops[i]));
    s.push_back(t);
    m.push_back(w);
  }
  for (size_t i = 0; i < s.size(); i++) readings(c, s[i], m[i], "chain:kept");
}
FAMILY(P13, chain, 15000, 800000) { if (c.r.chance(0.5)) chain<double>(c); else chain<cdouble>(c); }

// ---------------------------------------------------------------- P14
template <class A, class B> static void binary(Case &c) {
  typedef typename Res<A, B>::type R;
  Dims d = mdims(c);
  Kind k = vkind(c);
  Arr<A> a = holes<A>(c, d, k);
  Arr<B> b = holes<B>(c, d, k);
  if (c.r.chance(0.2)) for (size_t i = 0; i < a.v.size(); i++) if (c.r.chance(0.5)) b.v[i] = std::real(cdouble(a.v[i]));  // cancellations
  c.what << "binary " << tname<A>() << tname<B>() << str(d) << show(a.v, 6) << show(b.v, 6);
  tensor::Sparse<A> sa = any_build(c, a);
  tensor::Sparse<B> sb = any_build(c, b);
  c.ready();
  c.saw_what();
  VA p(d), m(d), t(d);
  for (long i = 0; i < a.size(); i++) {
    p.v[i].add(ld(a.v[i])); p.v[i].add(ld(b.v[i]));
    m.v[i].add(ld(a.v[i])); m.v[i].add(-ld(b.v[i]));
    t.v[i].add(ld(a.v[i]) * ld(b.v[i]));
  }
  expect_sparse<R>(c, sa + sb, p, "+");
  expect_sparse<R>(c, sa - sb, m, "-");
  expect_sparse<R>(c, sa * sb, t, "*");
  expect_val<R>(c, full(sa + sb), p, "full +");
  readings(c, sa, a, "operand");
  readings(c, sb, b, "operand");
}
FAMILY(P14, binary, 25000, 1500000) {
  switch (c.r.below(4)) {
  case 0: binary<double, double>(c); break;
  case 1: binary<cdouble, cdouble>(c); break;
  case 2: binary<double, cdouble>(c); break;
  default: binary<cdouble, double>(c); break;
  }
}
template <class A, class N> static void numbers(Case &c) {
  typedef typename Res<A, N>::type R;
  Dims d = mdims(c);
  Kind k = vkind(c);
  Arr<A> a = holes<A>(c, d, k);
  N f;
  do gen(c.r, k, f); while (f == N(0));
  bool zero = c.r.chance(0.1);
  c.what << "numbers " << tname<A>() << tname<N>() << str(d) << show(a.v, 6) << " by " << (zero ? N(0) : f);
  tensor::Sparse<A> s = any_build(c, a);
  c.ready();
  c.saw_what();
  VA t(d), q(d);
  N g = zero ? N(0) : f;
  for (long i = 0; i < a.size(); i++) {
    t.v[i].add(ld(a.v[i]) * ld(g));
    q.v[i].add(ld(a.v[i]) / ld(f));
    q.v[i].terms += 10;
  }
  expect_sparse<R>(c, s * g, t, "*number");
  expect_sparse<R>(c, g * s, t, "number*");
  expect_sparse<R>(c, s / f, q, "/number");
  VA n(d);
  for (long i = 0; i < a.size(); i++) n.v[i].v = -ld(a.v[i]);
  expect_sparse<A>(c, -s, n, "negation");
  readings(c, s, a, "operand");
}
FAMILY(P14, numbers, 25000, 1500000) {
  switch (c.r.below(4)) {
  case 0: numbers<double, double>(c); break;
  case 1: numbers<cdouble, cdouble>(c); break;
  case 2: numbers<double, cdouble>(c); break;
  default: numbers<cdouble, double>(c); break;
  }
}
template <class E> static void unary(Case &c) {
  Dims d = mdims(c);
  Arr<E> a = holes<E>(c, d, vkind(c));
  if (c.r.chance(0.3)) for (size_t i = 0; i < a.v.size(); i++) { cdouble z(a.v[i]); if (c.r.chance(0.3)) z = cdouble(0, z.imag()); a.v[i] = *(E *)&z; }
  c.what << "unary " << tname<E>() << str(d) << show(a.v, 8);
  tensor::Sparse<E> s = any_build(c, a);
  c.ready();
  c.saw_what();
  expect_sparse<E>(c, transpose(s), exact(tr(a, false)), "transpose");
  expect_sparse<E>(c, adjoint(s), exact(tr(a, true)), "adjoint");
  RA re(d), im(d);
  CA co(d), cx(d);
  for (long i = 0; i < a.size(); i++) {
    cdouble z(a.v[i]);
    re.v[i] = z.real(); im.v[i] = z.imag(); co.v[i] = std::conj(z); cx.v[i] = z;
  }
  RSparse sre = real(s), sim = imag(s);
  expect_sparse<double>(c, sre, exact(re), "real");
  expect_sparse<double>(c, sim, exact(im), "imag");
  CSparse sc = tensor::to_complex(tensor::conj(s)), sx = tensor::to_complex(s), sy(s);
  expect_sparse<cdouble>(c, sc, exact(co), "conj");
  expect_sparse<cdouble>(c, sx, exact(cx), "to_complex");
  expect_sparse<cdouble>(c, sy, exact(cx), "conversion");
  // comparison sees the matrix, not what happens to be stored
  RTensor tre = full(sre), tim = full(sim);
  CHECK_MSG(c, all_equal(sre, RSparse(to_tensor(re))), "all_equal real part", "says different");
  CHECK_MSG(c, all_equal(RSparse(to_tensor(im)), sim), "all_equal imaginary part", "says different");
  CHECK_MSG(c, all_equal(sre, tre) && all_equal(tim, sim), "all_equal with tensor", "says different");
  CHECK_MSG(c, all_equal(sx, s) && all_equal(s, sx), "all_equal real and complex", "says different");
  readings(c, s, a, "operand");
}
FAMILY(P14, unary, 25000, 1500000) { if (c.r.chance(0.5)) unary<double>(c); else unary<cdouble>(c); }

// Room reserved for elements does not make a matrix of zeros anything else
template <class E> static void reserved(Case &c) {
  typedef tensor::Sparse<E> S;
  Dims d = random_dims(c.r, 2, 0.06, 100);
  long room = d[0] * d[1] ? c.r.in(0, d[0] * d[1]) : 0;
  Arr<E> a = holes<E>(c, d, vkind(c)), z(d);
  for (size_t i = 0; i < z.v.size(); i++) z.v[i] = 0;
  c.what << "reserved " << tname<E>() << str(d) << " room " << room << show(a.v, 8);
  S q = any_build(c, a), p(d[0], d[1], room), none(d[0], d[1]);
  c.ready();
  c.saw_what();
  auto zero = [&](const Arr<E> &got, const Dims &dims, const char *key) {
    CHECK_MSG(c, got.d == dims, std::string("reserved:") + key, str(got.d) << " expected " << str(dims));
    for (size_t i = 0; i < got.v.size(); i++) CHECK_MSG(c, got.v[i] == E(0), std::string("reserved:") + key, "element " << i << " is " << got.v[i]);
  };
  Dims t{d[1], d[0]};
  zero(dense(S(transpose(p))), t, "transpose");
  zero(dense(S(adjoint(p))), t, "adjoint");
  zero(dense(S(transpose(S(transpose(p))))), d, "transpose twice");
  zero(dense(S(tensor::conj(p))), d, "conj");
  zero(dense(S(transpose(S(-p)))), t, "minus");
  zero(dense(S(transpose(S(p * E(3.0))))), t, "times number");
  zero(dense(S(E(3.0) * p)), d, "number times");
  zero(dense(S(p * q)), d, "product");
  zero(dense(S(q * p)), d, "product");
  zero(dense(S(kron(p, none))), Dims{d[0] * d[0], d[1] * d[1]}, "kron");
  zero(dense(S(kron2(q, p))), Dims{d[0] * d[0], d[1] * d[1]}, "kron");
  RSparse re = real(p), im = imag(p);
  CHECK_MSG(c, all_equal(re, none) && all_equal(none, im) && all_equal(transpose(re), transpose(none)), "reserved:parts", "not zero");
  expect_sparse<E>(c, S(p + q), exact(a), "reserved:sum");
  expect_sparse<E>(c, S(q - p), exact(a), "reserved:difference");
  CHECK_MSG(c, all_equal(p, none) && all_equal(none, p) && all_equal(p + q, q), "reserved:equal", "says different");
  tensor::Tensor<E> x = tensor::Tensor<E>::ones(d[1], 2), y = tensor::Tensor<E>::ones(2, d[0]);
  if (d[0] && d[1]) {
    zero(from_tensor(tensor::Tensor<E>(mmult(p, x))), Dims{d[0], 2}, "times tensor");
    zero(from_tensor(tensor::Tensor<E>(mmult(y, p))), Dims{2, d[1]}, "tensor times");
  }
}
FAMILY(P14, reserved, 8000, 400000) { if (c.r.chance(0.5)) reserved<double>(c); else reserved<cdouble>(c); }
template <class A> static void compare_dense(Case &c, const tensor::Sparse<A> &s, const tensor::Tensor<A> &t, bool want) {
  CHECK_MSG(c, all_equal(s, t) == want, "all_equal", "sparse,tensor says " << !want);
  CHECK_MSG(c, all_equal(t, s) == want, "all_equal", "tensor,sparse says " << !want);
}
template <class A, class B> static void compare_dense(Case &, const tensor::Sparse<A> &, const tensor::Tensor<B> &, bool) {}
template <class A, class B> static void compare(Case &c) {
  Dims d = mdims(c), e = d;
  Arr<A> a = holes<A>(c, d, INTS);
  Arr<B> b(d);
  for (long i = 0; i < a.size(); i++) b.v[i] = std::real(cdouble(a.v[i]));
  if (sizeof(A) > 8 && c.r.chance(0.7)) for (long i = 0; i < a.size(); i++) a.v[i] = std::real(cdouble(a.v[i]));
  int change = c.r.below(4);
  if (b.size()) {
    long i = c.r.below(b.size()), j = c.r.below(b.size());
    if (change == 1) b.v[i] += 1.0;
    if (change == 2) std::swap(b.v[i], b.v[j]);
  }
  if (change == 3) { e = Dims{d[1], d[0]}; b.d = e; }
  bool want = d == e;
  for (long i = 0; want && i < a.size(); i++) want = ld(a.v[i]) == ld(b.v[i]);
  c.what << "compare " << tname<A>() << tname<B>() << str(d) << str(e) << show(a.v, 6) << " change " << change;
  tensor::Sparse<A> sa = any_build(c, a);
  tensor::Sparse<B> sb = any_build(c, b);
  if (c.r.chance(0.3)) { sa = sa + sa * A(2.0) - A(2.0) * sa; }
  c.ready();
  c.saw_what();
  CHECK_MSG(c, all_equal(sa, sb) == want, "all_equal", "sparse,sparse says " << !want);
  CHECK_MSG(c, all_equal(sb, sa) == want, "all_equal", "sparse,sparse says " << !want);
  if (d == e) compare_dense(c, sa, to_tensor(b), want);
}
FAMILY(P14, compare, 25000, 1500000) {
  switch (c.r.below(4)) {
  case 0: compare<double, double>(c); break;
  case 1: compare<cdouble, cdouble>(c); break;
  case 2: compare<double, cdouble>(c); break;
  default: compare<cdouble, double>(c); break;
  }
}
template <class E> static VA kron_ref(const Arr<E> &a, const Arr<E> &b) {  // a slowest
  VA w(Dims{a.d[0] * b.d[0], a.d[1] * b.d[1]});
  for (long i = 0; i < a.d[0]; i++) for (long j = 0; j < a.d[1]; j++)
    for (long k = 0; k < b.d[0]; k++) for (long l = 0; l < b.d[1]; l++)
      w.at(Dims{i * b.d[0] + k, j * b.d[1] + l}).add(ld(a(i, j)) * ld(b(k, l)));
  return w;
}
template <class E> static void krons(Case &c) {
  Dims d = random_dims(c.r, 2, 0.06, 40), e = random_dims(c.r, 2, 0.06, 40);
  bool sum = c.r.chance(0.4);
  if (sum) { d[1] = d[0]; e[1] = e[0]; }
  Kind k = vkind(c);
  Arr<E> a = holes<E>(c, d, k), b = holes<E>(c, e, k);
  c.what << "kron" << (sum ? "2_sum " : " ") << tname<E>() << str(d) << str(e) << show(a.v, 5) << show(b.v, 5);
  tensor::Sparse<E> sa = any_build(c, a), sb = any_build(c, b);
  c.ready();
  c.saw_what();
  if (!sum) {
    expect_sparse<E>(c, kron(sa, sb), kron_ref(a, b), "kron");
    expect_sparse<E>(c, kron2(sa, sb), kron_ref(b, a), "kron2");
  } else {
    Arr<E> ia(Dims{d[0], d[0]}), ib(Dims{e[0], e[0]});
    for (long i = 0; i < d[0]; i++) ia(i, i) = 1.0;
    for (long i = 0; i < e[0]; i++) ib(i, i) = 1.0;
    VA w = kron_ref(a, ib), v = kron_ref(ia, b);  // kron(A,1) + kron(1,B)
    for (long i = 0; i < w.size(); i++) { w.v[i].v += v.v[i].v; w.v[i].m += v.v[i].m; w.v[i].terms += v.v[i].terms; }
    tensor::Sparse<E> s = kron2_sum(sa, sb);
    // the same Kronecker sum as the dense function gives
    expect_val<E>(c, kron2_sum(to_tensor(a), to_tensor(b)), w, "dense kron2_sum");
    expect_sparse<E>(c, s, w, "kron2_sum");
  }
  readings(c, sa, a, "operand");
  readings(c, sb, b, "operand");
}
FAMILY(P14, kron, 20000, 1200000) { if (c.r.chance(0.5)) krons<double>(c); else krons<cdouble>(c); }

template <class E> static void products(Case &c) {
  Dims d = mdims(c);
  bool left = c.r.chance(0.5);  // sparse on the left
  int rank = any_rank(c.r, 1, 4);
  Dims e = random_dims(c.r, rank, 0.05, 200);
  e[left ? 0 : rank - 1] = left ? d[1] : d[0];
  Kind k = vkind(c);
  Arr<E> a = holes<E>(c, d, k), b = random_arr<E>(c.r, e, k);
  c.what << "mmult " << tname<E>() << (left ? " sparse" : " tensor") << " first " << str(d) << str(e) << show(a.v, 6);
  tensor::Sparse<E> s = any_build(c, a);
  tensor::Tensor<E> t = to_tensor(b);
  c.ready();
  c.saw_what();
  Dims f = e;
  f[left ? 0 : rank - 1] = left ? d[0] : d[1];
  VA w(f);
  for (long p = 0; p < w.size(); p++) {
    Dims q = unpos(f, p);
    long free_ = q[left ? 0 : rank - 1];
    for (long l = 0; l < (left ? d[1] : d[0]); l++) {
      q[left ? 0 : rank - 1] = l;
      w.v[p].add(left ? ld(a(free_, l)) * ld(b.at(q)) : ld(b.at(q)) * ld(a(l, free_)));
    }
  }
  expect_val<E>(c, left ? mmult(s, t) : mmult(t, s), w, left ? "mmult(sparse,tensor)" : "mmult(tensor,sparse)");
  expect_same(c, t, b, "operand");
  readings(c, s, a, "operand");
}
FAMILY(P14, mmult, 25000, 1500000) { if (c.r.chance(0.5)) products<double>(c); else products<cdouble>(c); }

MON_MAIN
