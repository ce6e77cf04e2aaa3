// P04 addressing and builders, P05 slices, P06 shape operations.
#include "ref.h"
using namespace ref;
using tensor::range;
using tensor::PRange;
using tensor::igen;
using tensor::rgen;
using tensor::cgen;

// ---------------------------------------------------------------- P04
template <class E> const E &get(const tensor::Tensor<E> &t, const Dims &i) {
  switch (i.size()) {
  case 1: return t(i[0]);
  case 2: return t(i[0], i[1]);
  case 3: return t(i[0], i[1], i[2]);
  case 4: return t(i[0], i[1], i[2], i[3]);
  case 5: return t(i[0], i[1], i[2], i[3], i[4]);
  default: return t(i[0], i[1], i[2], i[3], i[4], i[5]);
  }
}
template <class E> E &put(tensor::Tensor<E> &t, const Dims &i) {
  switch (i.size()) {
  case 1: return t.at(i[0]);
  case 2: return t.at(i[0], i[1]);
  case 3: return t.at(i[0], i[1], i[2]);
  case 4: return t.at(i[0], i[1], i[2], i[3]);
  case 5: return t.at(i[0], i[1], i[2], i[3], i[4]);
  default: return t.at(i[0], i[1], i[2], i[3], i[4], i[5]);
  }
}
template <class E> tensor::Tensor<E> make(const Dims &d) {
  typedef tensor::Tensor<E> T;
  switch (d.size()) {
  case 1: return T(d[0]);
  case 2: return T(d[0], d[1]);
  case 3: return T(d[0], d[1], d[2]);
  case 4: return T(d[0], d[1], d[2], d[3]);
  case 5: return T(d[0], d[1], d[2], d[3], d[4]);
  default: return T(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}
template <class E> void check_dims(Case &c, const tensor::Tensor<E> &t, const Dims &d, const char *key) {
  std::string k(key);
  CHECK_MSG(c, from_indices(t.dimensions()) == d, k + ":dims", "dimensions " << str(from_indices(t.dimensions())) << " expected " << str(d));
  CHECK_MSG(c, t.size() == total(d), k + ":size", "size " << t.size() << " expected " << total(d));
  CHECK_MSG(c, t.rank() == (int)d.size(), k + ":rank", t.rank());
  CHECK_MSG(c, t.is_empty() == (total(d) == 0), k + ":is_empty", "");
  CHECK_MSG(c, (long)(t.end_const() - t.begin_const()) == total(d) && (t.end() - t.begin()) == total(d), k + ":iterators", "");
  for (size_t i = 0; i < d.size(); i++)
    CHECK_MSG(c, t.dimension(i) == d[i], k + ":dimension(i)", i);
  if (d.size() >= 1) CHECK_MSG(c, t.rows() == d[0], k + ":rows", "");
  if (d.size() >= 2) CHECK_MSG(c, t.columns() == d[1], k + ":columns", "");
  tensor::index q[6] = {-7, -7, -7, -7, -7, -7};
  switch (d.size()) {
  case 1: t.get_dimensions(q); break;
  case 2: t.get_dimensions(q, q + 1); break;
  case 3: t.get_dimensions(q, q + 1, q + 2); break;
  case 4: t.get_dimensions(q, q + 1, q + 2, q + 3); break;
  case 5: t.get_dimensions(q, q + 1, q + 2, q + 3, q + 4); break;
  case 6: t.get_dimensions(q, q + 1, q + 2, q + 3, q + 4, q + 5); break;
  }
  if (d.size() <= 6)
    for (size_t i = 0; i < d.size(); i++) CHECK_MSG(c, q[i] == d[i], k + ":get_dimensions", i << ": " << q[i]);
}

template <class E> void address(Case &c) {
  typedef tensor::Tensor<E> T;
  Dims d = dims_or_vast(c.r, c.r.in(1, 6), 0.04, 900);
  Arr<E> a = distinct_arr<E>(c.r, d);
  int how = c.r.below(5);
  c.what << (sizeof(E) > 8 ? "C" : "R") << str(d) << " how " << how;
  c.ready();
  c.saw_what();
  T t;
  if (how == 0) t = to_tensor(a);
  else if (how == 1) { t = make<E>(d); for (long p = 0; p < a.size(); p++) t.at_seq(p) = a.v[p]; }
  else if (how == 2) { Arr<E> flat; flat.d = Dims{a.size()}; flat.v = a.v; t = T(to_indices(d), to_tensor(flat)); }
  else if (how == 3) { t = make<E>(d); for (long p = 0; p < a.size(); p++) put(t, unpos(d, p)) = a.v[p]; }
  else { t = T(a.v); expect_same(c, t, [&] { Arr<E> f; f.d = Dims{a.size()}; f.v = a.v; return f; }(), "from_std_vector"); t.reshape(to_indices(d)); }
  check_dims(c, t, d, "build");
  expect_same(c, t, a, "build:contents");
  const T &ct = t;
  // reads: every multi-index, each index in positive or negative form
  for (long p = 0; p < a.size(); p++) {
    Dims i = unpos(d, p), j = i;
    for (size_t k = 0; k < d.size(); k++) j[k] = neg(c.r, i[k], d[k]);
    CHECK_MSG(c, same(get(ct, j), a.v[p]), "read", "t" << str(j) << " = " << get(ct, j) << " expected " << a.v[p]);
    CHECK_MSG(c, same(ct[p], a.v[p]), "read_seq", p);
  }
  // writes: exactly one element changes; a shared handle keeps the old contents
  for (int n = 0; n < 6 && a.size(); n++) {
    long p = c.r.below(a.size());
    Dims i = unpos(d, p), j = i;
    for (size_t k = 0; k < d.size(); k++) j[k] = neg(c.r, i[k], d[k]);
    E val;
    gen(c.r, IDS, val);
    Arr<E> old = a;
    T keep;
    bool sharing = c.r.chance(0.5);
    if (sharing) keep = t;
    int form = c.r.below(4);
    if (form == 0) put(t, j) = val;
    else if (form == 1) t.at_seq(p) = val;
    else if (form == 2) *(t.begin() + p) = val;
    else t.at(c.r.chance(0.5) ? p : p - a.size()) = val;  // at(i) addresses the whole tensor in sequence
    a.v[p] = val;
    expect_same(c, t, a, "write");
    if (sharing) expect_same(c, keep, old, "write:shared");
  }
  E val;
  gen(c.r, IDS, val);
  T f = t;
  f.fill_with(val);
  Arr<E> fa = a;
  std::fill(fa.v.begin(), fa.v.end(), val);
  expect_same(c, f, fa, "fill_with");
  f.fill_with_zeros();
  std::fill(fa.v.begin(), fa.v.end(), E(0));
  expect_same(c, f, fa, "fill_with_zeros");
  expect_same(c, t, a, "fill_with:shared");
}
FAMILY(P04, address, 40000, 3000000) {
  if (c.r.chance(0.5)) address<double>(c); else address<cdouble>(c);
}

template <class E> void builders(Case &c) {
  typedef tensor::Tensor<E> T;
  int rank = c.r.in(1, 6);
  Dims d = random_dims(c.r, rank, 0.1, 3000);
  c.what << (sizeof(E) > 8 ? "C" : "R") << str(d);
  c.ready();
  c.saw_what();
  Arr<E> z(d), o(d);
  std::fill(z.v.begin(), z.v.end(), E(0));
  std::fill(o.v.begin(), o.v.end(), E(1));
  Indices id = to_indices(d);
  expect_same<E>(c, T::zeros(id), z, "zeros(dims)");
  expect_same<E>(c, T::ones(id), o, "ones(dims)");
  check_dims<E>(c, T(id), d, "Tensor(dims)");
  check_dims<E>(c, make<E>(d), d, "Tensor(d..)");
  switch (rank) {
  case 1:
    { // one argument: a square matrix
      long n = d[0];
      Arr<E> z2(Dims{n, n}), o2(Dims{n, n}), e2(Dims{n, n});
      std::fill(z2.v.begin(), z2.v.end(), E(0));
      std::fill(o2.v.begin(), o2.v.end(), E(1));
      std::fill(e2.v.begin(), e2.v.end(), E(0));
      for (long i = 0; i < n; i++) e2(i, i) = 1;
      expect_same<E>(c, T::zeros(n), z2, "zeros(n)");
      expect_same<E>(c, T::ones(n), o2, "ones(n)");
      expect_same<E>(c, T::eye(n), e2, "eye(n)");
      check_dims<E>(c, T::random(d[0]), d, "random");
    }
    break;
  case 2: {
    expect_same<E>(c, T::zeros(d[0], d[1]), z, "zeros");
    expect_same<E>(c, T::ones(d[0], d[1]), o, "ones");
    Arr<E> e(d);
    std::fill(e.v.begin(), e.v.end(), E(0));
    for (long i = 0; i < std::min(d[0], d[1]); i++) e(i, i) = 1;
    expect_same<E>(c, T::eye(d[0], d[1]), e, "eye");
    check_dims<E>(c, T::random(d[0], d[1]), d, "random");
    break;
  }
  case 3:
    expect_same<E>(c, T::zeros(d[0], d[1], d[2]), z, "zeros");
    expect_same<E>(c, T::ones(d[0], d[1], d[2]), o, "ones");
    check_dims<E>(c, T::random(d[0], d[1], d[2]), d, "random");
    break;
  case 4:
    expect_same<E>(c, T::zeros(d[0], d[1], d[2], d[3]), z, "zeros");
    expect_same<E>(c, T::ones(d[0], d[1], d[2], d[3]), o, "ones");
    check_dims<E>(c, T::random(d[0], d[1], d[2], d[3]), d, "random");
    break;
  case 5:
    expect_same<E>(c, T::zeros(d[0], d[1], d[2], d[3], d[4]), z, "zeros");
    expect_same<E>(c, T::ones(d[0], d[1], d[2], d[3], d[4]), o, "ones");
    check_dims<E>(c, T::random(d[0], d[1], d[2], d[3], d[4]), d, "random");
    break;
  case 6:
    expect_same<E>(c, T::zeros(d[0], d[1], d[2], d[3], d[4], d[5]), z, "zeros");
    expect_same<E>(c, T::ones(d[0], d[1], d[2], d[3], d[4], d[5]), o, "ones");
    check_dims<E>(c, T::random(d[0], d[1], d[2], d[3], d[4], d[5]), d, "random");
    break;
  }
  T rnd = T::random(id);
  check_dims<E>(c, rnd, d, "random(dims)");
  for (long p = 0; p < rnd.size(); p++) {
    cdouble x(rnd[p]);
    CHECK_MSG(c, x.real() >= 0 && x.real() < 1 && x.imag() >= 0 && x.imag() < 1, "random:interval", x);
  }
  // coercions
  Arr<E> a = random_arr<E>(c.r, d, SPECIAL);
  T t = to_tensor(a);
  T copy(t), assigned;
  assigned = t;
  expect_same(c, copy, a, "copy");
  expect_same(c, assigned, a, "assign");
  tensor::Vector<E> v = t;
  Arr<E> flat;
  flat.d = Dims{a.size()};
  flat.v = a.v;
  expect_same<E>(c, T(v), flat, "from Vector");
  CHECK_MSG(c, v.size() == a.size() && std::equal(v.begin_const(), v.end_const(), t.begin_const(), [](const E &x, const E &y) { return same(x, y); }), "to Vector", "");
  RTensor rt = to_tensor(random_arr<double>(c.r, d, SPECIAL));
  CTensor conv(rt);
  Arr<cdouble> want(d);
  for (long p = 0; p < rt.size(); p++) want.v[p] = cdouble(rt[p], 0);
  expect_same(c, conv, want, "real to complex");
  // defaults
  T none;
  CHECK_MSG(c, none.size() == 0 && none.rank() == 0 && none.is_empty() && none.dimensions().size() == 0, "default", "");
}
FAMILY(P04, builders, 40000, 1500000) {
  if (c.r.chance(0.5)) builders<double>(c); else builders<cdouble>(c);
}

// Generator lists of every length that the templates are used with.
template <class E, class G> void gens(Case &c, const G &g) {
  typedef tensor::Tensor<E> T;
  E x[12];
  for (int i = 0; i < 12; i++) gen(c.r, IDS, x[i]);
  c.ready();
  Arr<E> w;
#define W(n) w.d = Dims{n}; w.v.assign(x, x + n)
  W(1); expect_same<E>(c, T(g << x[0]), w, "gen1");
  W(2); expect_same<E>(c, T(g << x[0] << x[1]), w, "gen2");
  W(3); expect_same<E>(c, T(g << x[0] << x[1] << x[2]), w, "gen3");
  W(4); expect_same<E>(c, T(g << x[0] << x[1] << x[2] << x[3]), w, "gen4");
  W(5); expect_same<E>(c, T(g << x[0] << x[1] << x[2] << x[3] << x[4]), w, "gen5");
  W(12); expect_same<E>(c, T(g << x[0] << x[1] << x[2] << x[3] << x[4] << x[5] << x[6] << x[7] << x[8] << x[9] << x[10] << x[11]), w, "gen12");
  w.d = Dims{3, 4};
  expect_same<E>(c, T(g << x[0] << x[1] << x[2] << x[3] << x[4] << x[5] << x[6] << x[7] << x[8] << x[9] << x[10] << x[11], igen << 3 << 4), w, "gen12 dims");
  w.d = Dims{2, 1, 3, 2};
  expect_same<E>(c, T(g << x[0] << x[1] << x[2] << x[3] << x[4] << x[5] << x[6] << x[7] << x[8] << x[9] << x[10] << x[11], igen << 2 << 1 << 3 << 2), w, "gen12 dims4");
  w.d = Dims{3};
  w.v.assign(x, x + 3);
  expect_same<E>(c, T(tensor::xgen << x[0] << x[1] << x[2]), w, "xgen");
  expect_same<E>(c, T(tensor::gen(x[0]) << x[1] << x[2]), w, "gen()");
  long k[5];
  for (int i = 0; i < 5; i++) k[i] = c.r.in(-1000000000000LL, 1000000000000LL);
  Indices id = igen << k[0] << k[1] << k[2] << k[3] << k[4];
  CHECK_MSG(c, from_indices(id) == Dims(k, k + 5), "igen", str(from_indices(id)));
  bool b[4];
  for (int i = 0; i < 4; i++) b[i] = c.r.chance(0.5);
  tensor::Vector<bool> bl = tensor::bgen << b[0] << b[1] << b[2] << b[3];
  CHECK_MSG(c, bl.size() == 4 && std::equal(b, b + 4, bl.begin_const()), "bgen", "");
  RTensor it = tensor::index_to_tensor(id);
  RA wi;
  wi.d = Dims{5};
  for (int i = 0; i < 5; i++) wi.v.push_back((double)k[i]);
  expect_same(c, it, wi, "index_to_tensor");
  Indices none(0);
  CHECK_MSG(c, tensor::index_to_tensor(none).size() == 0, "index_to_tensor:empty", "");
  c.saw(std::to_string(mon::hash_str((const char *)x, sizeof x)));
}
FAMILY(P04, generators, 8000, 300000) {
  if (c.r.chance(0.5)) gens<double>(c, rgen); else gens<cdouble>(c, cgen);
}

// ---------------------------------------------------------------- P05
struct Sel {
  int kind;  // 0 all, 1 single, 2 start-stop, 3 start-stop-step, 4 list
  long a, b, s;
  Dims list;   // arguments for kind 4
  Dims want;   // selected positions
  PRange get() const {
    switch (kind) {
    case 0: return range();
    case 1: return range(a);
    case 2: return range(a, b);
    case 3: return range(a, b, s);
    default: return range(to_indices(list));
    }
  }
  std::string text() const {
    std::ostringstream o;
    switch (kind) {
    case 0: o << ":"; break;
    case 1: o << a; break;
    case 2: o << a << ":" << b; break;
    case 3: o << a << ":" << b << ":" << s; break;
    default: o << str(list);
    }
    return o.str();
  }
};
static Sel random_sel(mon::Rng &r, long n, bool allow_repeat) {
  Sel s;
  s.kind = n == 0 ? (r.chance(0.7) ? 0 : 4) : r.below(5);
  s.a = s.b = s.s = 0;
  switch (s.kind) {
  case 0: for (long i = 0; i < n; i++) s.want.push_back(i); break;
  case 1: { long i = r.below(n); s.want.push_back(i); s.a = neg(r, i, n); break; }
  case 2: {
    long i = r.below(n), j = r.in(i, n - 1);
    for (long k = i; k <= j; k++) s.want.push_back(k);
    s.a = neg(r, i, n); s.b = neg(r, j, n);
    break;
  }
  case 3: {
    long i = r.below(n), j = r.in(i, n - 1);
    s.s = r.in(1, std::max(2L, n + 1));
    for (long k = i; k <= j; k += s.s) s.want.push_back(k);
    s.a = neg(r, i, n); s.b = neg(r, j, n);
    break;
  }
  default: {
    long m = n == 0 ? 0 : r.chance(0.08) ? 0 : r.in(1, n + (allow_repeat ? 2 : 0));
    Dims perm;
    for (long i = 0; i < n; i++) perm.push_back(i);
    for (long i = n - 1; i > 0; i--) std::swap(perm[i], perm[r.below(i + 1)]);
    for (long k = 0; k < m; k++) {
      long i = allow_repeat ? r.below(n) : perm[k % n];
      s.want.push_back(i);
      s.list.push_back(neg(r, i, n));
    }
  }
  }
  return s;
}
template <class E> tensor::Tensor<E> read_view(const tensor::Tensor<E> &t, const std::vector<Sel> &s) {
  switch (s.size()) {
  case 1: return t(s[0].get());
  case 2: return t(s[0].get(), s[1].get());
  case 3: return t(s[0].get(), s[1].get(), s[2].get());
  case 4: return t(s[0].get(), s[1].get(), s[2].get(), s[3].get());
  case 5: return t(s[0].get(), s[1].get(), s[2].get(), s[3].get(), s[4].get());
  default: return t(s[0].get(), s[1].get(), s[2].get(), s[3].get(), s[4].get(), s[5].get());
  }
}
template <class E, class V> void write_view(tensor::Tensor<E> &t, const std::vector<Sel> &s, const V &v) {
  switch (s.size()) {
  case 1: t.at(s[0].get()) = v; break;
  case 2: t.at(s[0].get(), s[1].get()) = v; break;
  case 3: t.at(s[0].get(), s[1].get(), s[2].get()) = v; break;
  case 4: t.at(s[0].get(), s[1].get(), s[2].get(), s[3].get()) = v; break;
  case 5: t.at(s[0].get(), s[1].get(), s[2].get(), s[3].get(), s[4].get()) = v; break;
  default: t.at(s[0].get(), s[1].get(), s[2].get(), s[3].get(), s[4].get(), s[5].get()) = v;
  }
}
// slice = slice, including slices of the same tensor
template <class E> void copy_view(tensor::Tensor<E> &t, const std::vector<Sel> &s, const tensor::Tensor<E> &u, const std::vector<Sel> &q) {
#define Q1 q[0].get()
#define Q2 Q1, q[1].get()
#define Q3 Q2, q[2].get()
#define Q4 Q3, q[3].get()
#define Q5 Q4, q[4].get()
#define Q6 Q5, q[5].get()
#define CV(n, ...) if (s.size() == n) { switch (q.size()) { \
    case 1: t.at(__VA_ARGS__) = u(Q1); break; case 2: t.at(__VA_ARGS__) = u(Q2); break; \
    case 3: t.at(__VA_ARGS__) = u(Q3); break; case 4: t.at(__VA_ARGS__) = u(Q4); break; \
    case 5: t.at(__VA_ARGS__) = u(Q5); break; default: t.at(__VA_ARGS__) = u(Q6); } }
  CV(1, s[0].get())
  CV(2, s[0].get(), s[1].get())
  CV(3, s[0].get(), s[1].get(), s[2].get())
  CV(4, s[0].get(), s[1].get(), s[2].get(), s[3].get())
  CV(5, s[0].get(), s[1].get(), s[2].get(), s[3].get(), s[4].get())
  CV(6, s[0].get(), s[1].get(), s[2].get(), s[3].get(), s[4].get(), s[5].get())
}
static Dims sel_dims(const std::vector<Sel> &s) {
  Dims d;
  for (size_t k = 0; k < s.size(); k++) d.push_back(s[k].want.size());
  return d;
}
// positions selected, in column-major order of the selection
static Dims sel_positions(const Dims &d, const std::vector<Sel> &s) {
  Dims e = sel_dims(s), out;
  for (long p = 0; p < total(e); p++) {
    Dims j = unpos(e, p), i(d.size());
    for (size_t k = 0; k < s.size(); k++) i[k] = s[k].want[j[k]];
    out.push_back(pos(d, i));
  }
  return out;
}
static std::string sel_text(const std::vector<Sel> &s) {
  std::string o;
  for (size_t k = 0; k < s.size(); k++) o += (k ? ", " : "(") + s[k].text();
  return o + ")";
}
// A tensor of rank > 1 may also be sliced with one range, over its sequence.
static std::vector<Sel> random_sels(mon::Rng &r, const Dims &d, Dims &effective, bool repeat) {
  std::vector<Sel> s;
  effective = d;
  if (d.size() > 1 && r.chance(0.12)) effective = Dims{total(d)};
  for (size_t k = 0; k < effective.size(); k++) s.push_back(random_sel(r, effective[k], repeat));
  return s;
}
template <class E> void slice_read(Case &c) {
  Dims d = dims_or_vast(c.r, c.r.in(1, 6), 0.04, 3000), ed;
  Arr<E> a = distinct_arr<E>(c.r, d);
  std::vector<Sel> s = random_sels(c.r, d, ed, true);
  c.what << "t" << str(d) << sel_text(s);
  c.ready();
  c.saw_what();
  tensor::Tensor<E> t = to_tensor(a);
  Dims p = sel_positions(ed, s);
  Arr<E> want;
  want.d = sel_dims(s);
  for (size_t k = 0; k < p.size(); k++) want.v.push_back(a.v[p[k]]);
  expect_same(c, read_view<E>(t, s), want, "read");
  expect_same(c, t, a, "read:source changed");
}
FAMILY(P05, read, 100000, 5000000) {
  if (c.r.chance(0.5)) slice_read<double>(c); else slice_read<cdouble>(c);
}
template <class E> void slice_write(Case &c) {
  Dims d = dims_or_vast(c.r, c.r.in(1, 6), 0.04, 1500), ed;
  Arr<E> a = distinct_arr<E>(c.r, d);
  int mode = c.r.below(5);  // number, tensor, slice of another, slice of itself, itself
  std::vector<Sel> s = random_sels(c.r, d, ed, mode == 0);
  tensor::Tensor<E> t = to_tensor(a), keep;
  bool sharing = c.r.chance(0.5);
  if (sharing) keep = t;
  Arr<E> old = a;
  Dims p = sel_positions(ed, s), sd = sel_dims(s);
  c.what << "t" << str(d) << ".at" << sel_text(s) << " = ";
  if (mode == 0) {
    E v;
    gen(c.r, SPECIAL, v);
    c.what << "number " << v;
    c.ready(); c.saw_what();
    for (size_t k = 0; k < p.size(); k++) a.v[p[k]] = v;
    write_view(t, s, v);
  } else if (mode == 1) {
    Arr<E> b = random_arr<E>(c.r, sd, IDS);
    if (c.r.chance(0.3)) b.d = Dims{b.size()};  // only the number of elements matters
    c.what << "tensor " << str(b.d);
    c.ready(); c.saw_what();
    for (size_t k = 0; k < p.size(); k++) a.v[p[k]] = b.v[k];
    tensor::Tensor<E> u = to_tensor(b);
    write_view(t, s, u);
    expect_same(c, u, b, "write:source changed");
  } else if (mode == 2 || mode == 3) {
    // source with the same number of selected elements
    Arr<E> b;
    std::vector<Sel> q;
    tensor::Tensor<E> other;
    if (mode == 3) {  // same tensor: draw selections of equal length per index
      b = a;
      for (size_t k = 0; k < s.size(); k++) {
        Sel x;
        x.kind = 4; x.a = x.b = x.s = 0;
        for (size_t m = 0; m < s[k].want.size(); m++) {
          long i = c.r.below(ed[k]);
          x.want.push_back(i);
          x.list.push_back(neg(c.r, i, ed[k]));
        }
        if (x.want.size() == (size_t)ed[k] && c.r.chance(0.3)) { x.kind = 0; for (long i = 0; i < ed[k]; i++) x.want[i] = i; }
        q.push_back(x);
      }
      if (c.r.chance(0.25)) q = s;
      c.what << "itself" << sel_text(q);
      c.ready(); c.saw_what();
      Dims pq = sel_positions(ed, q);
      for (size_t k = 0; k < p.size(); k++) a.v[p[k]] = b.v[pq[k]];
      copy_view<E>(t, s, t, q);
    } else {
      Dims bd(sd);
      for (size_t k = 0; k < bd.size(); k++) bd[k] += c.r.in(0, 2);
      b = distinct_arr<E>(c.r, bd);
      for (size_t k = 0; k < s.size(); k++) {
        Sel x;
        x.kind = 4; x.a = x.b = x.s = 0;
        long off = c.r.in(0, bd[k] - sd[k]);
        for (long m = 0; m < sd[k]; m++) { x.want.push_back(off + m); x.list.push_back(off + m); }
        if (sd[k] > 0 && c.r.chance(0.6)) { x.kind = 2; x.a = off; x.b = neg(c.r, off + sd[k] - 1, bd[k]); }
        q.push_back(x);
      }
      c.what << "other" << str(bd) << sel_text(q);
      c.ready(); c.saw_what();
      Dims pq = sel_positions(bd, q);
      for (size_t k = 0; k < p.size(); k++) a.v[p[k]] = b.v[pq[k]];
      other = to_tensor(b);
      copy_view<E>(t, s, other, q);
      expect_same(c, other, b, "write:source changed");
    }
  } else {
    // permuted list of everything = the tensor itself
    s.clear();
    ed = d;
    for (size_t k = 0; k < d.size(); k++) {
      Sel x;
      x.kind = 4; x.a = x.b = x.s = 0;
      for (long i = 0; i < d[k]; i++) x.want.push_back(i);
      for (long i = d[k] - 1; i > 0; i--) std::swap(x.want[i], x.want[c.r.below(i + 1)]);
      x.list = x.want;
      s.push_back(x);
    }
    p = sel_positions(d, s);
    c.what << "itself, whole " << sel_text(s);
    c.ready(); c.saw_what();
    for (size_t k = 0; k < p.size(); k++) a.v[p[k]] = old.v[k];
    write_view(t, s, t);
  }
  expect_same(c, t, a, "write");
  if (sharing) expect_same(c, keep, old, "write:shared");
}
FAMILY(P05, write, 120000, 5000000) {
  if (c.r.chance(0.5)) slice_write<double>(c); else slice_write<cdouble>(c);
}

// ---------------------------------------------------------------- P06
static Dims random_factorization(mon::Rng &r, long n, int rank) {
  Dims d(rank, 1);
  if (n == 0) { for (int i = 0; i < rank; i++) d[i] = r.in(0, 3); d[r.below(rank)] = 0; return d; }
  long m = n;
  for (long f = 2; m > 1;) {
    if (m % f == 0) { d[r.below(rank)] *= f; m /= f; } else f++;
  }
  return d;
}
template <class E> void shape(Case &c) {
  typedef tensor::Tensor<E> T;
  Dims d = dims_or_vast(c.r, any_rank(c.r, 1, 6), 0.06, 2500);
  Arr<E> a = distinct_arr<E>(c.r, d);
  T t = to_tensor(a);
  int rank = any_rank(c.r, 1, 7);
  Dims nd = random_factorization(c.r, total(d), rank);
  c.what << str(d) << " -> " << str(nd);
  c.ready(); c.saw_what();
  Arr<E> w = a;
  w.d = nd;
  expect_same<E>(c, reshape(t, to_indices(nd)), w, "reshape(dims)");
  T u = t;
  u.reshape(to_indices(nd));
  expect_same(c, u, w, "reshape method");
  expect_same<E>(c, T(to_indices(nd), t), w, "constructor");
  switch (rank) {
  case 1: expect_same<E>(c, reshape(t, nd[0]), w, "reshape1"); break;
  case 2: expect_same<E>(c, reshape(t, nd[0], nd[1]), w, "reshape2"); break;
  case 3: expect_same<E>(c, reshape(t, nd[0], nd[1], nd[2]), w, "reshape3"); break;
  case 4: expect_same<E>(c, reshape(t, nd[0], nd[1], nd[2], nd[3]), w, "reshape4"); break;
  case 5: expect_same<E>(c, reshape(t, nd[0], nd[1], nd[2], nd[3], nd[4]), w, "reshape5"); break;
  case 6: expect_same<E>(c, reshape(t, nd[0], nd[1], nd[2], nd[3], nd[4], nd[5]), w, "reshape6"); break;
  }
  w.d = Dims{a.size()};
  expect_same<E>(c, flatten(t), w, "flatten");
  // squeeze drops the dimensions that are 1
  Dims sq;
  for (size_t k = 0; k < d.size(); k++) if (d[k] != 1) sq.push_back(d[k]);
  if (sq.empty()) sq.push_back(1);
  w.d = sq;
  expect_same<E>(c, squeeze(t), w, "squeeze");
  expect_same(c, t, a, "source changed");
}
FAMILY(P06, reshape, 60000, 3000000) {
  if (c.r.chance(0.5)) shape<double>(c); else shape<cdouble>(c);
}
template <class E> Arr<E> ref_permute(const Arr<E> &a, int i, int j) {
  Dims d = a.d;
  std::swap(d[i], d[j]);
  Arr<E> o(d);
  for (long p = 0; p < a.size(); p++) {
    Dims k = unpos(a.d, p);
    std::swap(k[i], k[j]);
    o.at(k) = a.v[p];
  }
  return o;
}
template <class E> void permuting(Case &c) {
  int rank = any_rank(c.r, 1, 6);
  Dims d = dims_or_vast(c.r, rank, 0.04, 4000);
  if (c.r.chance(0.05)) { d = Dims(2); d[0] = c.r.in(1, 80); d[1] = c.r.in(1, 80); rank = 2; }
  if (c.r.chance(0.03)) { rank = 8; d = random_dims(c.r, 8, 0.02, 20000); }
  Arr<E> a = distinct_arr<E>(c.r, d);
  int i = c.r.below(rank), j = c.r.below(rank);
  long ni = neg(c.r, i, rank), nj = neg(c.r, j, rank);
  c.what << str(d) << " permute " << ni << "," << nj;
  c.ready(); c.saw_what();
  tensor::Tensor<E> t = to_tensor(a);
  Arr<E> w = ref_permute(a, i, j);
  tensor::Tensor<E> p = permute(t, ni, nj);
  expect_same(c, p, w, "permute");
  expect_same<E>(c, permute(p, nj, ni), a, "permute twice");
  expect_same<E>(c, permute(t, nj, ni), w, "permute exchanged");
  if (rank > 0) expect_same<E>(c, permute(t), ref_permute(a, 0, rank - 1), "permute default");
  if (rank == 2) {
    Arr<E> tr = ref_permute(a, 0, 1), ad = tr;
    for (size_t k = 0; k < ad.v.size(); k++) ad.v[k] = cj(ad.v[k]);
    expect_same<E>(c, transpose(t), tr, "transpose");
    expect_same<E>(c, adjoint(t), ad, "adjoint");
    expect_same<E>(c, transpose(transpose(t)), a, "transpose twice");
    expect_same<E>(c, adjoint(adjoint(t)), a, "adjoint twice");
  }
  expect_same(c, t, a, "source changed");
}
FAMILY(P06, permute, 80000, 4000000) {
  if (c.r.chance(0.5)) permuting<double>(c); else permuting<cdouble>(c);
}
template <class E> void chdim(Case &c) {
  int rank = any_rank(c.r, 1, 6);
  Dims d = dims_or_vast(c.r, rank, 0.05, 1500);
  Arr<E> a = distinct_arr<E>(c.r, d);
  int k = c.r.below(rank);
  long nk = neg(c.r, k, rank), size = c.r.chance(0.3) ? d[k] : c.r.in(0, d[k] + 4);
  c.what << str(d) << " dimension " << nk << " -> " << size;
  c.ready(); c.saw_what();
  Dims nd = d;
  nd[k] = size;
  Arr<E> w(nd);
  std::fill(w.v.begin(), w.v.end(), E(0));
  for (long p = 0; p < w.size(); p++) {
    Dims i = unpos(nd, p);
    if (i[k] < d[k]) w.v[p] = a.at(i);
  }
  tensor::Tensor<E> t = to_tensor(a);
  expect_same<E>(c, change_dimension(t, nk, size), w, "change_dimension");
  expect_same(c, t, a, "source changed");
}
FAMILY(P06, change_dimension, 50000, 2500000) {
  if (c.r.chance(0.5)) chdim<double>(c); else chdim<cdouble>(c);
}
MON_MAIN
