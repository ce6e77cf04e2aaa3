// P03: misuse stops the program.  Every case draws a call, runs it first within its preconditions
// (in this process, so that the check cannot be satisfied by refusing everything) and then with one
// precondition broken, in a child which has to abort without a sanitizer report.
#include "calls.h"
#include <tensor/sdf.h>
#include <functional>
#include <climits>
using namespace ref;
using calls::Args;
typedef std::function<void()> F;
using tensor::index_to_tensor;

struct Try { std::string key; F good, bad; };
static volatile double sink;
template <class E> static void use(const tensor::Tensor<E> &t) { if (t.size()) sink = mag(t[t.size() - 1]); }
static void use(const Booleans &t) { if (t.size()) sink = t[t.size() - 1]; }
static void use(const Indices &t) { if (t.size()) sink = t[t.size() - 1]; }
static void use(double t) { sink = t; }
static void use(cdouble t) { sink = t.real(); }
template <class E> static void use(const tensor::Sparse<E> &t) { use(t.priv_data()); sink = t.length(); }

static void judge(Case &c, const Try &t) {
  c.what << ' ' << t.key;
  c.ready();
  c.saw_what();
  if (t.good) { t.good(); mon::shared()->events++; }
  expect_abort(c, t.key, t.bad);
}
// An index that is not one of 0..d-1 or -d..-1
static long outside(mon::Rng &r, long d) {
  switch (r.below(8)) {
  case 0: case 1: return d;
  case 2: case 3: return -d - 1;
  case 4: return d + r.in(1, 5);
  case 5: return -d - r.in(2, 6);
  case 6: return r.chance(0.5) ? d * 1000 + 7 : -d * 1000 - 7;
  default: return r.chance(0.5) ? LONG_MAX - r.in(0, 9) : LONG_MIN / 2 + r.in(0, 9);
  }
}
static long inside(mon::Rng &r, long d) { return r.chance(0.3) ? r.in(-d, -1) : r.chance(0.3) ? d - 1 : r.below(d); }
static int far(mon::Rng &r, int rank) { long k = outside(r, rank); if (k > 1000000) return 1000000; if (k < -1000000) return -1000000; return k; }

// ---- element access ---------------------------------------------------------------------------------
template <class E, class T> static void get(T &t, const std::vector<long> &i) {
  switch (i.size()) {
  case 1: use(E(t(i[0]))); break;
  case 2: use(E(t(i[0], i[1]))); break;
  case 3: use(E(t(i[0], i[1], i[2]))); break;
  case 4: use(E(t(i[0], i[1], i[2], i[3]))); break;
  case 5: use(E(t(i[0], i[1], i[2], i[3], i[4]))); break;
  case 6: use(E(t(i[0], i[1], i[2], i[3], i[4], i[5]))); break;
  }
}
template <class E> static void set(tensor::Tensor<E> &t, const std::vector<long> &i) {
  E v(7.0);
  switch (i.size()) {
  case 1: t.at(i[0]) = v; break;
  case 2: t.at(i[0], i[1]) = v; break;
  case 3: t.at(i[0], i[1], i[2]) = v; break;
  case 4: t.at(i[0], i[1], i[2], i[3]) = v; break;
  case 5: t.at(i[0], i[1], i[2], i[3], i[4]) = v; break;
  case 6: t.at(i[0], i[1], i[2], i[3], i[4], i[5]) = v; break;
  }
}
template <class E> static void access(Case &c) {
  mon::Rng &r = c.r;
  int rank = r.in(1, 6);
  Dims d(rank);
  for (auto &x : d) x = r.in(1, rank > 4 ? 3 : 5);
  tensor::Tensor<E> t = to_tensor(random_arr<E>(r, d, INTS));
  std::vector<long> ok(rank), bad;
  for (int k = 0; k < rank; k++) ok[k] = inside(r, d[k]);
  bool write = r.chance(0.5), emptied = false;
  std::string how;
  bad = ok;
  if (r.chance(0.25)) {  // a wrong number of indices
    int n = r.in(1, 6);
    if (n == rank) n = rank == 6 ? 5 : rank + 1;
    if (write && n == 1) n = rank == 2 ? 3 : 2;  // at(i) sees any tensor as a vector
    bad.assign(n, 0);
    how = "number of indices";
    if (r.chance(0.5)) { Dims e(d); for (auto &x : e) x = 1; t = tensor::Tensor<E>::ones(to_indices(e)); d = e; ok.assign(rank, 0); }
  } else if (r.chance(0.1)) {  // nothing can be read from an empty tensor
    Dims e(d);
    int k = r.below(rank);
    e[k] = 0;
    tensor::Tensor<E> x(to_indices(e));
    c.what << (sizeof(E) > 8 ? "C" : "R") << str(e) << (write ? " write " : " read ") << str(bad);
    bad[k] = r.in(-1, 1);
    judge(c, Try{"access of an empty tensor", F(), [&] { if (write) set(x, bad); else { const tensor::Tensor<E> &y = x; get<E>(y, bad); } }});
    return;
  } else {
    int k = r.below(rank);
    bad[k] = outside(r, write && rank == 1 ? t.size() : d[k]);
    how = "index";
  }
  (void)emptied;
  c.what << (sizeof(E) > 8 ? "C" : "R") << str(d) << (write ? " write " : " read ") << str(bad);
  tensor::Tensor<E> u = t;
  judge(c, Try{how, [&] { if (write) set(u, ok); else { const tensor::Tensor<E> &y = t; get<E>(y, ok); } },
               [&] { if (write) set(t, bad); else { const tensor::Tensor<E> &y = t; get<E>(y, bad); } }});
}
FAMILY(P03, access, 4500, 300000) { if (c.r.chance(0.5)) access<double>(c); else access<cdouble>(c); }

// ---- slices ---------------------------------------------------------------------------------------------
struct Rg {  // how to build a range
  int kind; long a, b, s; Dims ix;
  tensor::PRange make() const {
    switch (kind) {
    case 0: return tensor::range();
    case 1: return tensor::range(a);
    case 2: return tensor::range(a, b);
    case 3: return tensor::range(a, b, s);
    default: return tensor::range(to_indices(ix));
    }
  }
  std::string text() const { std::ostringstream o; o << "r" << kind; if (kind == 4) o << str(ix); else if (kind) o << "(" << a << "," << b << "," << s << ")"; return o.str(); }
};
static Rg good_range(mon::Rng &r, long d) {
  Rg g; g.kind = r.below(5); g.a = r.below(d); g.b = r.in(g.a, d - 1); g.s = r.in(1, 3);
  if (r.chance(0.3)) g.b -= d;
  if (r.chance(0.3)) g.a -= d;
  for (long n = r.in(1, 4); n; n--) g.ix.push_back(inside(r, d));
  return g;
}
static Rg bad_range(mon::Rng &r, long d) {
  Rg g = good_range(r, d);
  g.kind = r.in(1, 4);
  long o = outside(r, d);
  if (o > 1000000000L) o = 1000000000L;
  if (o < -1000000000L) o = -1000000000L;
  switch (g.kind) {
  case 1: g.a = o; break;
  case 2: case 3:
    if (g.kind == 3 && r.chance(0.2)) { g.s = -r.in(0, 2); break; }
    if (o >= d) { g.b = o; if (r.chance(0.3)) g.a = r.in(0, d); } else (r.chance(0.5) ? g.a : g.b) = o;
    break;
  case 4: g.ix[r.below(g.ix.size())] = o; break;
  }
  return g;
}
template <class E> static tensor::Tensor<E> read(const tensor::Tensor<E> &t, const std::vector<Rg> &g) {
  switch (g.size()) {
  case 1: return t(g[0].make());
  case 2: return t(g[0].make(), g[1].make());
  case 3: return t(g[0].make(), g[1].make(), g[2].make());
  case 4: return t(g[0].make(), g[1].make(), g[2].make(), g[3].make());
  case 5: return t(g[0].make(), g[1].make(), g[2].make(), g[3].make(), g[4].make());
  default: return t(g[0].make(), g[1].make(), g[2].make(), g[3].make(), g[4].make(), g[5].make());
  }
}
template <class E, class V> static void write(tensor::Tensor<E> &t, const std::vector<Rg> &g, const V &v) {
  switch (g.size()) {
  case 1: t.at(g[0].make()) = v; break;
  case 2: t.at(g[0].make(), g[1].make()) = v; break;
  case 3: t.at(g[0].make(), g[1].make(), g[2].make()) = v; break;
  case 4: t.at(g[0].make(), g[1].make(), g[2].make(), g[3].make()) = v; break;
  case 5: t.at(g[0].make(), g[1].make(), g[2].make(), g[3].make(), g[4].make()) = v; break;
  default: t.at(g[0].make(), g[1].make(), g[2].make(), g[3].make(), g[4].make(), g[5].make()) = v; break;
  }
}
template <class E> static void slices(Case &c) {
  mon::Rng &r = c.r;
  typedef tensor::Tensor<E> T;
  int rank = r.in(1, 6);
  Dims d(rank);
  for (auto &x : d) x = r.in(1, rank > 3 ? 3 : 5);
  T t = to_tensor(random_arr<E>(r, d, INTS)), u = t;
  std::vector<Rg> ok, bad;
  for (int k = 0; k < rank; k++) ok.push_back(good_range(r, d[k]));
  bad = ok;
  std::string how;
  int what = r.below(10);
  T some = read(t, ok);
  if (what < 2) {
    int n = r.in(2, 6);  // one range is for any tensor
    if (n == rank) n = rank == 6 ? 5 : rank + 1;
    while ((int)bad.size() > n) bad.pop_back();
    while ((int)bad.size() < n) { Rg g; g.kind = r.below(2); g.a = 0; bad.push_back(g); }
    how = "number of ranges";
  } else if (what < 7) {
    int k = r.below(rank);
    bad[k] = bad_range(r, d[k]);
    how = "range outside";
  } else if (what < 8) {
    bad.assign(1, bad_range(r, t.size()));
    how = "range outside the whole";
  } else {
    how = "size of the assigned tensor";
  }
  c.what << (sizeof(E) > 8 ? "C" : "R") << str(d);
  for (auto &g : bad) c.what << ' ' << g.text();
  int form = what >= 8 ? r.in(2, 3) : r.below(4);
  c.what << " form " << form;
  if (what >= 8) {
    long n = some.size();
    long m = r.chance(0.3) ? n + 1 : r.chance(0.4) && n > 1 ? n - 1 : r.chance(0.5) ? 2 * n + 3 : 0;
    if (m == n) m = n + 1;
    T wrong = T::ones(to_indices(Dims{m}));
    c.what << " of " << n << " gets " << m;
    bool viewed = form == 3 && m > 0;
    judge(c, Try{how, [&] { write(u, ok, some); }, [&] { if (viewed) write(t, ok, wrong(tensor::range())); else write(t, ok, wrong); }});
    return;
  }
  judge(c, Try{how, [&] { use(read(u, ok)); write(u, ok, some); },
               [&] { switch (form) { case 0: case 1: use(read(t, bad)); break; case 2: write(t, bad, E(3.0)); break; default: write(t, bad, some); } }});
}
FAMILY(P03, slices, 4500, 300000) { if (c.r.chance(0.5)) slices<double>(c); else slices<cdouble>(c); }

// ---- elementwise --------------------------------------------------------------------------------------------
static Dims other_size(mon::Rng &r, const Dims &d) {
  Dims e = d;
  for (int i = 0; i < 50; i++) {
    e = d;
    switch (r.below(4)) {
    case 0: e[r.below(e.size())] += r.in(1, 2); break;
    case 1: e[r.below(e.size())] -= 1; break;
    case 2: e.push_back(r.in(0, 3)); break;
    default: e = Dims{total(d) + r.in(-2, 2)}; break;
    }
    bool neg = false;
    for (auto x : e) neg = neg || x < 0;
    if (!neg && total(e) != total(d)) return e;
  }
  return Dims{total(d) + 1};
}
template <class A, class B> static F binary(int op, const tensor::Tensor<A> &a, const tensor::Tensor<B> &b) {
  switch (op) {
  case 0: return [=] { use(a + b); };
  case 1: return [=] { use(a - b); };
  case 2: return [=] { use(a * b); };
  default: return [=] { use(a / b); };
  }
}
template <class A, class B> static F compound(int op, const tensor::Tensor<A> &a, const tensor::Tensor<B> &b) {
  switch (op) {
  case 0: return [=] { tensor::Tensor<A> x = a; x += b; use(x); };
  case 1: return [=] { tensor::Tensor<A> x = a; x -= b; use(x); };
  case 2: return [=] { tensor::Tensor<A> x = a; x *= b; use(x); };
  default: return [=] { tensor::Tensor<A> x = a; x /= b; use(x); };
  }
}
static F ordering(int op, const RTensor &a, const RTensor &b) {
  switch (op) {
  case 0: return [=] { use(Booleans(a == b)); };
  case 1: return [=] { use(Booleans(a != b)); };
  case 2: return [=] { use(Booleans(a < b)); };
  case 3: return [=] { use(Booleans(a > b)); };
  case 4: return [=] { use(Booleans(a <= b)); };
  default: return [=] { use(Booleans(a >= b)); };
  }
}
static F ordering(int op, const Indices &a, const Indices &b) {
  switch (op) {
  case 0: return [=] { use(Booleans(a == b)); };
  case 1: return [=] { use(Booleans(a != b)); };
  case 2: return [=] { use(Booleans(a < b)); };
  case 3: return [=] { use(Booleans(a > b)); };
  case 4: return [=] { use(Booleans(a <= b)); };
  default: return [=] { use(Booleans(a >= b)); };
  }
}
template <class A, class B> static void pairs(Case &c, int kind) {
  mon::Rng &r = c.r;
  Args a(c, false, true);
  Dims d = a.dims(r.in(1, 4)), e = other_size(r, d);
  tensor::Tensor<A> x = a.make<A>(d);
  tensor::Tensor<B> y = a.make<B>(d), z = a.make<B>(e);
  int op = r.below(4);
  c.what << (sizeof(A) > 8 ? "C" : "R") << str(d) << " and " << (sizeof(B) > 8 ? "C" : "R") << str(e) << " operation " << op;
  bool swap = r.chance(0.5);
  if (kind == 0) judge(c, Try{"operator", binary(op, x, y), swap ? binary(op, z, x) : binary(op, x, z)});
}
template <class A, class B> static void compounds(Case &c) {
  mon::Rng &r = c.r;
  Args a(c, false, true);
  Dims d = a.dims(r.in(1, 4)), e = other_size(r, d);
  tensor::Tensor<A> x = a.make<A>(d);
  tensor::Tensor<B> y = a.make<B>(d), z = a.make<B>(e);
  int op = r.below(4);
  c.what << (sizeof(A) > 8 ? "C" : "R") << str(d) << " and " << (sizeof(B) > 8 ? "C" : "R") << str(e) << " compound " << op;
  judge(c, Try{"compound", compound(op, x, y), compound(op, x, z)});
}
FAMILY(P03, elementwise, 3500, 200000) {
  mon::Rng &r = c.r;
  switch (r.below(11)) {
  case 0: pairs<double, double>(c, 0); break;
  case 1: pairs<cdouble, cdouble>(c, 0); break;
  case 2: pairs<double, cdouble>(c, 0); break;
  case 3: pairs<cdouble, double>(c, 0); break;
  case 4: compounds<double, double>(c); break;
  case 5: compounds<cdouble, cdouble>(c); break;
  case 6: compounds<cdouble, double>(c); break;
  case 7: {
    Args a(c, false, true);
    Dims d = a.dims(r.in(1, 4)), e = other_size(r, d);
    int op = r.below(6);
    c.what << "compare R" << str(d) << " and " << str(e) << " operation " << op;
    RTensor x = a.make<double>(d), y = a.make<double>(d), z = a.make<double>(e);
    judge(c, Try{"comparison", ordering(op, x, y), r.chance(0.5) ? ordering(op, x, z) : ordering(op, z, x)});
    break;
  }
  case 8: {
    Args a(c, false, true);
    Dims d = a.dims(r.in(1, 4)), e = other_size(r, d);
    bool ne = r.chance(0.5), swap = r.chance(0.5);
    c.what << "compare C" << str(d) << " and " << str(e) << " operation " << ne << swap;
    CTensor x = a.make<cdouble>(d), y = a.make<cdouble>(d), z = a.make<cdouble>(e);
    if (swap) judge(c, Try{"comparison", [&] { use(Booleans(ne ? x != y : x == y)); }, [&] { use(Booleans(ne ? z != x : z == x)); }});
    else judge(c, Try{"comparison", [&] { use(Booleans(ne ? x != y : x == y)); }, [&] { use(Booleans(ne ? x != z : x == z)); }});
    break;
  }
  case 9: {
    Args a(c, false, true);
    long n = r.in(0, 6), m = r.in(0, 7);
    if (m == n) m++;
    int op = r.below(6);
    c.what << "indices " << n << " and " << m << " operation " << op;
    judge(c, Try{"comparison of indices", ordering(op, a.indices(n, 0, 3), a.indices(n, 0, 3)), ordering(op, a.indices(n, 0, 3), a.indices(m, 0, 3))});
    break;
  }
  default: {
    Args a(c, false, true);
    long n = r.in(0, 6), m = r.in(0, 7);
    if (m == n) m++;
    bool o = r.chance(0.5);
    Booleans x = a.bools(n), y = a.bools(n), z = a.bools(m);
    c.what << "booleans " << n << " and " << m << (o ? " or" : " and");
    judge(c, Try{"booleans", [&] { use(Booleans(o ? x || y : x && y)); }, [&] { use(Booleans(o ? x || z : x && z)); }});
  }
  }
}
// ---- contractions and shapes ----------------------------------------------------------------------------------
template <class A, class B> static void contraction(Case &c) {
  mon::Rng &r = c.r;
  Args a(c, false, false);
  Dims da = a.dims1(r.in(1, 3)), db = a.dims1(r.in(1, 3));
  int i = r.below(da.size()), j = r.below(db.size());
  int op = r.below(4);
  if (op == 3) { i = da.size() - 1; j = 0; }
  da[i] = db[j];
  Dims dc = db;
  int bi = i, bj = j;
  bool index_wrong = op != 3 && r.chance(0.4);
  if (index_wrong) { if (r.chance(0.5)) bi = far(r, da.size()); else bj = far(r, db.size()); }
  else { dc[j] += r.chance(0.5) || dc[j] == 1 ? r.in(1, 3) : -1; }
  tensor::Tensor<A> x = a.make<A>(da);
  tensor::Tensor<B> y = a.make<B>(db), z = a.make<B>(dc);
  static const char *names[] = {"fold", "foldc", "foldin", "mmult"};
  c.what << names[op] << " " << str(da) << "," << bi << " " << str(dc) << "," << bj << (sizeof(A) > 8 ? " C" : " R") << (sizeof(B) > 8 ? "C" : "R");
  auto f = [&](const tensor::Tensor<B> &w, int p, int q) {
    switch (op) {
    case 0: use(fold(x, p, w, q)); break;
    case 1: use(foldc(x, p, w, q)); break;
    case 2: use(fold(x, p, w, q)); break;
    default: use(mmult(x, w)); break;
    }
  };
  judge(c, Try{std::string(names[op]) + (index_wrong ? " index" : " size"), [&] { f(y, i, j); }, [&] { f(z, bi, bj); }});
}
template <class E> static void contraction_in(Case &c) {
  mon::Rng &r = c.r;
  Args a(c, false, false);
  Dims da = a.dims1(r.in(1, 3)), db = a.dims1(r.in(1, 3));
  int i = r.below(da.size()), j = r.below(db.size()), bi = i, bj = j;
  da[i] = db[j];
  Dims dc = db;
  bool index_wrong = r.chance(0.4);
  if (index_wrong) { if (r.chance(0.5)) bi = far(r, da.size()); else bj = far(r, db.size()); }
  else { dc[j] += r.chance(0.5) || dc[j] == 1 ? r.in(1, 3) : -1; }
  tensor::Tensor<E> x = a.make<E>(da), y = a.make<E>(db), z = a.make<E>(dc);
  c.what << "foldin " << str(da) << "," << bi << " " << str(dc) << "," << bj << (sizeof(E) > 8 ? " C" : " R");
  judge(c, Try{index_wrong ? "foldin index" : "foldin size", [&] { use(foldin(x, i, y, j)); }, [&] { use(foldin(x, bi, z, bj)); }});
}
FAMILY(P03, contraction, 3000, 200000) {
  switch (c.r.below(6)) {
  case 0: contraction<double, double>(c); break;
  case 1: contraction<cdouble, cdouble>(c); break;
  case 2: contraction<double, cdouble>(c); break;
  case 3: contraction<cdouble, double>(c); break;
  case 4: contraction_in<double>(c); break;
  default: contraction_in<cdouble>(c); break;
  }
}
template <class E> static void shapes(Case &c) {
  mon::Rng &r = c.r;
  typedef tensor::Tensor<E> T;
  Args a(c, false, false);
  Dims d = a.dims1(r.in(1, 4));
  T x = a.make<E>(d);
  int rank = d.size(), k = r.below(rank), w = far(r, rank);
  c.what << (sizeof(E) > 8 ? "C" : "R") << str(d) << ' ';
  Dims e = other_size(r, d);
  switch (r.below(16)) {
  case 0: c.what << str(e); judge(c, Try{"reshape", [&] { use(reshape(x, to_indices(d))); }, [&] { use(reshape(x, to_indices(e))); }}); break;
  case 1: { long n = x.size(), m = n + (r.chance(0.5) ? 1 : -1); int f = r.below(4); c.what << m << " form " << f;
    judge(c, Try{"reshape numbers", [&] { switch (f) { case 0: use(reshape(x, n)); break; case 1: use(reshape(x, n, 1)); break; case 2: use(reshape(x, 1, n, 1)); break; default: use(reshape(x, 1, 1, n, 1)); } },
                 [&] { switch (f) { case 0: use(reshape(x, m)); break; case 1: use(reshape(x, m, 1)); break; case 2: use(reshape(x, 1, m, 1)); break; default: use(reshape(x, 1, 1, m, 1)); } }}); break; }
  case 2: c.what << str(e); judge(c, Try{"reshape in place", [&] { T y = x; y.reshape(to_indices(d)); use(y); }, [&] { T y = x; y.reshape(to_indices(e)); use(y); }}); break;
  case 3: c.what << str(e); judge(c, Try{"constructor", [&] { T y(to_indices(d), x); use(y); }, [&] { T y(to_indices(e), x); use(y); }}); break;
  case 4: c.what << str(e); { typedef tensor::StaticVector<E, 4> V; V v = (((tensor::ListGenerator<E>() << E(1.0)) << E(2.0)) << E(3.0)) << E(4.0); Indices g = to_indices(total(e) == 4 ? Dims{5} : e); judge(c, Try{"constructor from list", [&] { T y(v, to_indices(Dims{2, 2})); use(y); }, [&] { T y(v, g); use(y); }}); } break;
  case 5: c.what << k << ',' << w; { bool s = r.chance(0.5); judge(c, Try{"permute", [&] { use(permute(x, k, 0)); }, [&] { use(s ? permute(x, k, w) : permute(x, w, k)); }}); } break;
  case 6: c.what << w; judge(c, Try{"change_dimension", [&] { use(change_dimension(x, k, 3)); }, [&] { use(change_dimension(x, w, 3)); }}); break;
  case 7: { int o = r.chance(0.5) ? rank + r.in(0, 3) : -r.in(1, 9); c.what << o; judge(c, Try{"dimension", [&] { sink = x.dimension(k); }, [&] { sink = x.dimension(o); }}); break; }
  case 8: { if (rank == 1) { d = Dims{d[0], 2}; x = a.make<E>(d); rank = 2; w = far(r, 2); k = r.below(2); } int o = (k + 1) % rank; bool same = r.chance(0.3); bool s = r.chance(0.5); c.what << k << ',' << w << same;
    judge(c, Try{"trace index", [&] { use(trace(x, k, o)); }, [&] { if (same) use(trace(x, k, k)); else use(s ? trace(x, k, w) : trace(x, w, k)); }}); break; }
  case 9: { long n = d[k], m = n + (r.chance(0.5) ? 1 : -1); bool cplx = r.chance(0.5) && sizeof(E) > 8; bool idx = r.chance(0.4), inp = r.chance(0.5); c.what << k << ' ' << w << ' ' << m << ' ' << idx << inp;
    T v = T::ones(to_indices(Dims{n})), u = T::ones(to_indices(Dims{m})); RTensor rv = RTensor::ones(to_indices(Dims{n})), ru = RTensor::ones(to_indices(Dims{m})); (void)cplx;
    int mode = r.below(2);
    auto f = [&](int q, const T &p, const RTensor &rp) { if (inp) { T y = x; if (mode) scale_inplace(y, q, p); else scale_inplace(y, q, rp); use(y); } else if (mode) use(scale(x, q, p)); else use(scale(x, q, rp)); };
    judge(c, Try{idx ? "scale index" : "scale length", [&] { f(k, v, rv); }, [&] { if (idx) f(w, v, rv); else f(k, u, ru); }}); break; }
  case 10: { if (rank == 1) { d = Dims{d[0], 3}; x = a.make<E>(d); rank = 2; w = far(r, 2); k = r.below(2); } c.what << w; judge(c, Try{"mean index", [&] { use(mean(x, k)); }, [&] { use(mean(x, w)); }}); break; }
  case 11: { int n = rank == 2 ? 3 : rank; Dims g(n, 2); T y = T::ones(to_indices(g)), m = T::ones(2, 2); int f = r.below(4); c.what << "rank " << n << " form " << f;
    judge(c, Try{"matrix operation of another rank", [&] { use(transpose(m)); use(adjoint(m)); use(trace(m)); use(matrix_norminf(m)); },
                 [&] { switch (f) { case 0: use(transpose(y)); break; case 1: use(adjoint(y)); break; case 2: use(trace(y)); break; default: use(matrix_norminf(y)); } }}); break; }
  case 12: { int ra = r.in(1, 3), rb = r.in(1, 3); if (ra == rb && ra < 3) rb = 3; T p = T::ones(to_indices(Dims(ra, 2))), q = T::ones(to_indices(Dims(rb, 2))), g = T::ones(2, 2); int f = r.below(3); c.what << ra << ',' << rb << " form " << f;
    judge(c, Try{"kron of other ranks", [&] { use(kron(g, g)); use(kron2(g, g)); use(kron2_sum(g, g)); }, [&] { switch (f) { case 0: use(kron(p, q)); break; case 1: use(kron2(p, q)); break; default: use(kron2_sum(p, q)); } }}); break; }
  case 13: { long n = r.in(0, 5), m = n + r.in(1, 3); T p = T::ones(to_indices(Dims{n})), q = T::ones(to_indices(Dims{m})); bool s = r.chance(0.5); c.what << "scprod " << n << ',' << m;
    judge(c, Try{"scprod", [&] { use(scprod(p, p)); }, [&] { use(s ? scprod(p, q) : scprod(q, p)); }}); break; }
  case 14: {  // a diagonal over an index that is not there, one index twice or an offset beyond the tensor
    if (rank == 1) { d = Dims{d[0], r.in(1, 3)}; x = a.make<E>(d); rank = 2; w = far(r, 2); k = r.below(2); }
    int o = (k + 1 + r.below(rank - 1)) % rank, how = r.below(3), which = how == 2 ? (r.chance(0.5) ? d[o] + r.in(0, 3) : -d[k] - r.in(0, 3)) : r.in(-1, 1), i = k, j = o;
    if (how == 2 && k > o) which = which > 0 ? d[o] + r.in(0, 3) : -(d[k] + r.in(0, 3));
    if (how == 0) j = k - (r.chance(0.5) ? rank : 0);
    if (how == 1) (r.chance(0.5) ? i : j) = w;
    if (how < 2) which = 0;
    c.what << "take_diag " << which << ' ' << i << ' ' << j;
    judge(c, Try{"diagonal", [&] { use(take_diag(x, 0, k, o)); }, [&] { use(take_diag(x, which, i, j)); }});
    break;
  }
  default: { long n = r.in(1, 5), R = r.in(1, 6), C = r.in(1, 6); int o = r.in(-3, 3); long l = std::min(o < 0 ? R + o : R, o < 0 ? C : C - o); if (l == n) n++; c.what << "diag of " << n << " at " << o << " in " << R << ',' << C;
    T v = T::ones(to_indices(Dims{n})); judge(c, Try{"diag", [&] { use(diag(v, 1, n, n + 1)); }, [&] { use(diag(v, o, R, C)); }}); break; }
  }
}
FAMILY(P03, shapes, 4000, 250000) { if (c.r.chance(0.5)) shapes<double>(c); else shapes<cdouble>(c); }
FAMILY(P03, others, 1200, 60000) {
  mon::Rng &r = c.r;
  Args a(c, false, false);
  switch (r.below(6)) {
  case 0: { RTensor e(to_indices(Dims{0})), o = RTensor::ones(2); bool m = r.chance(0.5); c.what << "extreme of nothing " << m; judge(c, Try{"extreme of nothing", [&] { use(min(o)); use(max(o)); }, [&] { use(m ? min(e) : max(e)); }}); break; }
  case 1: { Dims d = a.dims1(r.in(1, 3)); CTensor x = a.make<cdouble>(d); int w = far(r, d.size()); bool inp = r.chance(0.5), sh = r.chance(0.4); if (sh && r.chance(0.3)) w = -1; if (!sh && w >= -(int)d.size() && w < 0) w = d.size(); c.what << "transform " << str(d) << " over " << w << inp << sh; if (w >= 0 && w < (int)d.size()) return;
    judge(c, Try{"transform index", [&] { use(tensor::fftw(x, (tensor::index)0, tensor::FFTW_FORWARD)); }, [&] { if (sh) use(CTensor(tensor::fftshift(x, (tensor::index)w, tensor::FFTW_FORWARD))); else if (inp) { CTensor y = x; tensor::fftw_inplace(y, (tensor::index)w, tensor::FFTW_FORWARD); use(y); } else use(tensor::fftw(x, (tensor::index)w, tensor::FFTW_FORWARD)); }}); break; }
  case 2: { Dims d = a.dims1(r.in(1, 3)); CTensor x = a.make<cdouble>(d); int n = d.size() + (r.chance(0.5) ? 1 : -1); Booleans b = a.bools(n), g = a.bools(d.size()); int f = r.below(3); c.what << "transform " << str(d) << " with " << n << " flags, form " << f;
    judge(c, Try{"transform flags", [&] { use(tensor::fftw(x, g, tensor::FFTW_FORWARD)); use(CTensor(tensor::fftshift(x, g, tensor::FFTW_FORWARD))); }, [&] { switch (f) { case 0: use(tensor::fftw(x, b, tensor::FFTW_FORWARD)); break; case 1: { CTensor y = x; tensor::fftw_inplace(y, b, tensor::FFTW_FORWARD); use(y); break; } default: use(CTensor(tensor::fftshift(x, b, tensor::FFTW_FORWARD))); } }}); break; }
  case 3: { std::string f = mon::scratch_dir() + "/f.dat"; int what = r.below(3); c.what << "closed file " << what; unlink(f.c_str());
    judge(c, Try{"closed file", [&] { { sdf::OutDataFile o(f, sdf::DataFile::SDF_OVERWRITE); o.dump(1.0, "a"); } sdf::InDataFile i(f); double v; i.load(&v, "a"); },
                 [&] { if (what == 0) { sdf::InDataFile i(f); i.close(); double v; i.load(&v, "a"); } else { sdf::OutDataFile o(f, sdf::DataFile::SDF_OVERWRITE); o.close(); if (what == 1) o.dump(2.0, "b"); else o.dump(RTensor::ones(3), "b"); } }}); break; }
  case 4: { int rank = r.in(1, 4), w = far(r, rank); const Indices d = to_indices(a.dims1(rank)); c.what << "surrounding_dimensions " << rank << ' ' << w; long p, q, s; if (w < 0) w = rank - w; judge(c, Try{"surrounding_dimensions", [&] { surrounding_dimensions(d, 0, &p, &q, &s); }, [&] { surrounding_dimensions(d, w, &p, &q, &s); }}); break; }
  default: { Dims d = a.dims1(r.in(1, 3)), e = other_size(r, d); RTensor x = a.make<double>(d), y = a.make<double>(e); c.what << "to_complex " << str(d) << str(e); judge(c, Try{"to_complex", [&] { use(tensor::to_complex(x, x)); }, [&] { use(tensor::to_complex(x, y)); }}); break; }
  }
}
// ---- sparse -----------------------------------------------------------------------------------------------------
template <class E> static void sparse(Case &c) {
  mon::Rng &r = c.r;
  typedef tensor::Sparse<E> S;
  typedef tensor::Tensor<E> T;
  Args a(c, false, false);
  Dims d = a.dims1(2);
  S s = a.make_sparse<E>(d);
  long R = d[0], C = d[1];
  c.what << (sizeof(E) > 8 ? "CS" : "RS") << str(d) << ' ';
  switch (r.below(10)) {
  case 0: { bool row = r.chance(0.5); long i = row ? outside(r, R) : inside(r, R), j = row ? inside(r, C) : outside(r, C); c.what << i << ',' << j; judge(c, Try{"element", [&] { use(E(s(0, C - 1))); use(E(s(-R, -C))); }, [&] { use(E(s(i, j))); }}); break; }
  case 1: { int op = r.below(3); Dims e = d; e[r.below(2)] += r.chance(0.5) ? 1 : -1; S t = a.make_sparse<E>(e), u = a.make_sparse<E>(d); bool sw = r.chance(0.5); c.what << str(e) << " operation " << op;
    auto f = [&](const S &p, const S &q) { switch (op) { case 0: use(S(p + q)); break; case 1: use(S(p - q)); break; default: use(S(p * q)); } };
    judge(c, Try{"operator", [&] { f(s, u); }, [&] { if (sw) f(t, s); else f(s, t); }}); break; }
  case 2: { long n = C + (r.chance(0.5) && C > 0 ? -1 : r.in(1, 3)); int rank = r.in(1, 3); Dims e(rank, 2), g(rank, 2); e[0] = n; g[0] = C; c.what << "times " << str(e); T x = a.make<E>(e), y = a.make<E>(g); judge(c, Try{"sparse times tensor", [&] { use(T(mmult(s, y))); }, [&] { use(T(mmult(s, x))); }}); break; }
  case 3: { long n = R + (r.chance(0.5) && R > 0 ? -1 : r.in(1, 3)); int rank = r.in(1, 3); Dims e(rank, 2), g(rank, 2); e[rank - 1] = n; g[rank - 1] = R; c.what << str(e) << " times it"; T x = a.make<E>(e), y = a.make<E>(g); judge(c, Try{"tensor times sparse", [&] { use(T(mmult(y, s))); }, [&] { use(T(mmult(x, s))); }}); break; }
  case 4: { long n = r.in(1, 4), m = n + (r.chance(0.5) ? 1 : -1); bool col = r.chance(0.5); Indices i = a.indices(n, 0, 3), j = a.indices(col ? m : n, 0, 3), k = a.indices(n, 0, 3); T v = T::ones(to_indices(Dims{col ? n : m})), w = T::ones(to_indices(Dims{n})); c.what << "coordinates " << n << ',' << m << ' ' << col; judge(c, Try{"coordinates", [&] { use(S(i, k, w, 4, 4)); }, [&] { use(S(i, j, v, 4, 4)); }}); break; }
  case 5: { long n = R + 1 + (r.chance(0.5) ? 1 : -1); Indices p(n), g(R + 1); for (long k = 0; k < n; k++) p.at(k) = 0; for (long k = 0; k <= R; k++) g.at(k) = 0; Indices none(0); T v(to_indices(Dims{0})); c.what << "row offsets " << n; judge(c, Try{"row offsets", [&] { use(S(to_indices(d), g, none, v)); }, [&] { use(S(to_indices(d), p, none, v)); }}); break; }
  case 7: {  // coordinates that no matrix has
    long n = r.in(1, 6), k = r.below(n);
    Indices i = a.indices(n, 0, 3), j = a.indices(n, 0, 3), p = i, q = j;
    bool row = r.chance(0.5);
    (row ? p : q).at(k) = -r.in(1, 5);
    T w = T::ones(to_indices(Dims{n}));
    bool sized = r.chance(0.5);
    c.what << "negative " << (row ? "row" : "column") << ' ' << k << " of " << n << ' ' << sized;
    auto f = [&](const Indices &x, const Indices &y) { if (sized) use(S(x, y, w, 4, 4)); else use(S(x, y, w)); };
    judge(c, Try{"coordinates", [&] { f(i, j); }, [&] { f(p, q); }});
    break;
  }
  case 8: {  // parts that do not belong together
    Dims e{r.in(2, 5), r.in(3, 6)}, rs(1, 0), col;
    for (long x = 0; x < e[0]; x++) { for (long y = 0; y < e[1]; y++) if (r.chance(0.5) || (x == 1 && y < 2)) col.push_back(y); rs.push_back(col.size()); }
    long n = col.size(), extra = 0, row = r.below(e[0]), k = rs[1];
    Dims ok = rs, okc = col, f = e;
    int how = r.below(8);
    switch (how) {
    case 0: rs[0] = r.in(1, 2); break;
    case 1: rs[e[0]] = n + r.in(1, 40); break;
    case 2: rs[1 + r.below(e[0] - 1)] = n + r.in(1, 40); break;                                   // decreases later
    case 3: rs[1 + r.below(e[0] - 1)] = -r.in(1, 9); break;
    case 4: col[k + r.below(2)] = r.chance(0.5) ? -r.in(1, 9) : e[1] + r.in(0, 9); break;         // no such column
    case 5: col[k + 1] = col[k] - (r.chance(0.5) ? 1 : 0); break;                                 // out of order or twice
    case 6: extra = r.chance(0.5) ? 1 : -1; break;                                                // values and columns
    default: f = r.chance(0.5) ? Dims{e[0]} : Dims{e[0], e[1], 2}; break;
    }
    T v = T::ones(to_indices(Dims{n})), w = T::ones(to_indices(Dims{n + extra}));
    c.what << "parts " << how << ' ' << str(f) << ' ' << str(rs) << ' ' << str(col) << ' ' << row;
    judge(c, Try{"parts", [&] { use(S(to_indices(e), to_indices(ok), to_indices(okc), v)); }, [&] { use(S(to_indices(f), to_indices(rs), to_indices(col), w)); }});
    break;
  }
  case 6: { int o = r.in(2, 9); c.what << "dimension " << o; judge(c, Try{"dimension", [&] { sink = s.dimension(1); }, [&] { sink = s.dimension(o); }}); break; }
  default: { int rank = r.in(1, 4); if (rank == 2) rank = 3; Dims e(rank, 2); T x = a.make<E>(e), y = a.make<E>(Dims{2, 2}); c.what << "from a tensor of rank " << rank; judge(c, Try{"from tensor", [&] { use(S(y)); }, [&] { use(S(x)); }}); break; }
  }
}
FAMILY(P03, sparse, 2500, 150000) { if (c.r.chance(0.5)) sparse<double>(c); else sparse<cdouble>(c); }
// ---- linear algebra -----------------------------------------------------------------------------------------------
template <class E> static void systems(Case &c) {
  mon::Rng &r = c.r;
  typedef tensor::Sparse<E> S;
  typedef tensor::Tensor<E> T;
  Args a(c, false, false);
  long n = r.in(1, 7), m = n + (r.chance(0.5) && n > 1 ? -r.in(1, n - 1) : r.in(1, 4));
  T A = a.make_regular<E>(n, true), b = a.make<E>(Dims{n}), B = a.make<E>(Dims{n, 2});
  T W = a.make<E>(r.chance(0.5) ? Dims{n, m} : Dims{m, n}), w = a.make<E>(Dims{m}), w2 = a.make<E>(Dims{m, 2});
  T W3 = a.make<E>(Dims{n, n, r.in(1, 2)});
  int rank = r.below(3);  // 0: rectangular, 1: right hand side, 2: rank
  static const char *why[] = {"rectangular", "right hand side", "rank"};
  const T &M = rank == 0 ? W : rank == 1 ? A : W3;
  bool mat = r.chance(0.4);
  const T &v = rank == 1 ? (mat ? w2 : w) : (mat ? B : b);
  int f = r.below(4);
  c.what << (sizeof(E) > 8 ? "C" : "R") << " system of " << n << " (" << m << ") " << why[rank] << " form " << f << ' ' << mat << ' ';
  if (rank == 0 && f == 2) { c.what << "svd"; f = 0; }  // any rectangle may be solved with svd
  switch (f) {
  case 0: case 1: judge(c, Try{std::string("solve ") + why[rank], [&] { use(T(linalg::solve(A, b))); use(T(linalg::solve(A, B))); }, [&] { use(T(linalg::solve(M, v))); }}); break;
  case 2: judge(c, Try{std::string("solve_with_svd ") + why[rank], [&] { use(T(linalg::solve_with_svd(A, b, 1e-10))); }, [&] { use(T(linalg::solve_with_svd(M, v, 1e-10))); }}); break;
  default: {
    bool sp = r.chance(0.4) && rank != 2;
    const T u = rank == 1 ? w : b;
    judge(c, Try{std::string(sp ? "sparse cgs " : "cgs ") + why[rank], [&] { use(T(linalg::cgs(A, b))); use(T(linalg::cgs(S(A), b))); }, [&] { if (sp) use(T(linalg::cgs(S(M), u))); else use(T(linalg::cgs(M, u))); }});
  }
  }
}
FAMILY(P03, systems, 2500, 150000) { if (c.r.chance(0.5)) systems<double>(c); else systems<cdouble>(c); }
template <class E> static F spectrum(int f, const tensor::Tensor<E> &M, long k) {
  typedef tensor::Sparse<E> S;
  typedef tensor::Tensor<E> T;
  switch (f) {
  case 0: return [=] { CTensor L, R; use(CTensor(linalg::eig(M, &R, &L))); };
  case 1: return [=] { use(CTensor(linalg::eig(M))); };
  case 2: return [=] { use(linalg::eig_sym(M)); };
  case 3: return [=] { T R; use(linalg::eig_sym(M, &R)); };
  case 4: return [=] { T v; use(linalg::eig_power_right(M, &v, 0, 1e-6)); };
  case 5: return [=] { T v; use(linalg::eig_power_left(M, &v, 0, 1e-6)); };
  case 6: return [=] { use(linalg::eigs(M, linalg::LargestMagnitude, k)); };
  case 7: return [=] { T V; use(linalg::eigs(M, linalg::LargestReal, k, &V)); };
  case 8: return [=] { use(T(linalg::expm(M))); };
  case 9: return [=] { use(T(linalg::svd(M))); };
  case 10: return [=] { T U, V; use(T(linalg::svd(M, &U, &V, true))); };
  case 11: return [=] { use(T(linalg::block_svd(M))); };
  case 12: return [=] { use(linalg::eigs(S(M), linalg::LargestMagnitude, k)); };
  case 13: return [=] { T v; use(linalg::eig_power_right(S(M), &v, 0, 1e-6)); };
  default: return [=] { T v; use(linalg::eig_power_left(S(M), &v, 0, 1e-6)); };
  }
}
template <class E> static void spectra(Case &c) {
  mon::Rng &r = c.r;
  typedef tensor::Tensor<E> T;
  Args a(c, false, false);
  int f = r.below(15);
  long n = r.in(1, 8), m = n + (r.chance(0.5) && n > 1 ? -r.in(1, n - 1) : r.in(1, 4));
  T A = a.make_regular<E>(n, true);
  long k = n <= 4 ? r.in(1, n) : r.in(1, n / 2);
  bool many = (f == 6 || f == 7 || f == 12) && r.chance(0.4);
  T W;
  long kb = k;
  std::string why;
  if (many) { W = A; kb = r.chance(0.4) ? 0 : n + r.in(1, 5); why = " count"; }
  else if (f < 4 && r.chance(0.2)) { W = a.make<E>(Dims{0, 0}); why = " of nothing"; }
  else if (f >= 9 && f <= 11) { W = f < 11 && r.chance(0.3) ? a.make<E>(Dims{0, r.chance(0.5) ? 0 : n}) : r.chance(0.5) ? a.make<E>(Dims{n, n, r.in(1, 2)}) : r.chance(0.5) ? a.make<E>(Dims{n}) : a.make<E>(Dims{n, 0}); why = " not a matrix"; }
  else if (f < 9 && r.chance(0.25)) { W = r.chance(0.6) ? a.make<E>(Dims{n, n, r.in(1, 2)}) : a.make<E>(Dims{n + 1}); why = " rank"; }
  else { W = a.make<E>(r.chance(0.5) ? Dims{n, m} : Dims{m, n}); kb = std::min(k, std::min(n, m)); why = " rectangular"; }
  c.what << (sizeof(E) > 8 ? "C" : "R") << " spectrum " << f << " of " << str(from_indices(W.dimensions())) << " k " << kb;
  judge(c, Try{"spectrum " + std::to_string(f) + why, spectrum<E>(f, A, k), spectrum<E>(f, W, kb)});
}
FAMILY(P03, spectra, 3000, 150000) { if (c.r.chance(0.5)) spectra<double>(c); else spectra<cdouble>(c); }
FAMILY(P03, operators, 600, 40000) {
  mon::Rng &r = c.r;
  Args a(c, false, false);
  Dims d = a.dims1(2);
  bool tr = r.chance(0.5);
  long in = tr ? d[0] : d[1], bad = in + (r.chance(0.5) ? -1 : r.in(1, 3));
  RTensor A = a.make<double>(d), v = a.make<double>(Dims{in}), w = a.make<double>(Dims{bad});
  bool sp = r.chance(0.5);
  c.what << "operator " << str(d) << (tr ? " transposed" : "") << (sp ? " sparse" : "") << " on " << bad;
  auto f = [&](const RTensor &x) { if (sp) { tensor::MatrixMap<RSparse> m(RSparse(A), tr); use(m(x)); } else { tensor::MatrixMap<RTensor> m(A, tr); use(m(x)); } };
  judge(c, Try{"operator", [&] { f(v); }, [&] { f(w); }});
}
MON_MAIN
