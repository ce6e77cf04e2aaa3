// P01 (histories) and P28: handles that share storage, followed step by step by a model that keeps
// the value of every handle and which handles have to share their elements.
#include "calls.h"
#include <tensor/fftw.h>
#include <tensor/io.h>
#include <map>
#include <memory>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
using namespace ref;
using tensor::PRange;
using tensor::range;
using tensor::Vector;

static void expect_dims(Case &c, const Indices &i, const Dims &d) { CHECK_MSG(c, from_indices(i) == d, "dimensions", "dimensions " << str(from_indices(i)) << " expected " << str(d)); }
template <class E> struct Pool {
  typedef tensor::Tensor<E> T;
  struct TH { T t; Arr<E> m; int sid; };
  struct VH { Vector<E> v; std::vector<E> m; int sid; };
  std::vector<std::unique_ptr<TH>> ts;
  std::vector<std::unique_ptr<VH>> vs;
  std::map<int, const E *> where;   // storage number -> address of its elements
  int next;
  bool storage;                     // judge addresses too (P28)
  Case &c;
  std::string log;
  Pool(Case &cc, bool s) : next(1), storage(s), c(cc) {}
  mon::Rng &r() { return c.r; }
  int owners(int sid) const {
    int n = 0;
    for (auto &h : ts) n += h->sid == sid;
    for (auto &h : vs) n += h->sid == sid;
    return n;
  }
  void say(const std::string &s) { log += s + ";"; c.what.str(log.substr(log.size() > 3000 ? log.size() - 3000 : 0)); c.ready(); }
  int add(const T &t, const Arr<E> &m, int sid) {
    std::unique_ptr<TH> h(new TH());
    h->t = t; h->m = m; h->sid = sid;
    ts.push_back(std::move(h));
    return ts.size() - 1;
  }
  void written(TH &h) { if (owners(h.sid) > 1) h.sid = next++; }       // the writer moves if it shares
  void written(VH &h) { if (owners(h.sid) > 1) h.sid = next++; }
  void fresh(TH &h) { h.sid = next++; }
  void verify(const std::string &op) {
    mon::shared()->events++;
    std::map<int, const E *> now;
    std::map<const E *, int> back;
    for (size_t k = 0; k < ts.size(); k++) {
      const T &t = ts[k]->t;
      Arr<E> g = from_tensor(t);
      CHECK_MSG(c, same(g, ts[k]->m), op + ":value", "tensor " << k << " is " << show(g) << " expected " << show(ts[k]->m) << " after " << log);
      if (storage) place(op, k, t.begin_const(), t.size(), t.ref_count(), ts[k]->sid, now, back);
    }
    for (size_t k = 0; k < vs.size(); k++) {
      const Vector<E> &v = vs[k]->v;
      std::vector<E> g(v.begin_const(), v.end_const());
      bool ok = g.size() == vs[k]->m.size();
      for (size_t i = 0; ok && i < g.size(); i++) ok = same(g[i], vs[k]->m[i]);
      CHECK_MSG(c, ok, op + ":vector value", "vector " << k << " is " << show(g) << " expected " << show(vs[k]->m) << " after " << log);
      if (storage) place(op, 100 + k, v.begin_const(), v.size(), v.ref_count(), vs[k]->sid, now, back);
    }
    where = now;
  }
  void place(const std::string &op, int k, const E *p, long n, int refs, int sid, std::map<int, const E *> &now, std::map<const E *, int> &back) {
    if (n == 0) return;
    auto i = now.find(sid);
    if (i != now.end())
      CHECK_MSG(c, i->second == p, op + ":copied", "handle " << k << " no longer shares the elements of its copies, after " << log);
    else {
      auto b = back.find(p);
      CHECK_MSG(c, b == back.end(), op + ":shared", "handle " << k << " shares elements it should own, after " << log);
      now[sid] = p;
      back[p] = sid;
    }
    auto w = where.find(sid);
    if (w != where.end())
      CHECK_MSG(c, w->second == p, op + ":moved", "the elements of handle " << k << " moved although only their owner was used, after " << log);
    CHECK_MSG(c, refs == owners(sid), op + ":references", "handle " << k << " counts " << refs << " references instead of " << owners(sid) << " after " << log);
  }
};

template <class E> static E value(mon::Rng &r) { E x; gen(r, r.chance(0.8) ? IDS : SPECIAL, x); return x; }
static Dims some_dims(mon::Rng &r) { return random_dims(r, r.in(1, 3), 0.04, 200); }
static Dims other_dims(mon::Rng &r, long n, const Dims &old) {  // the same number of elements, other dimensions
  if (n == 0) return r.chance(0.5) ? Dims{0} : Dims{3, 0};
  switch (r.below(4)) {
  case 0: return Dims{n};
  case 1: return Dims{n, 1};
  case 2: { Dims d = old; std::reverse(d.begin(), d.end()); return d; }
  default: { long f = 1; for (long k = 2; k <= n; k++) if (n % k == 0 && r.chance(0.5)) { f = k; break; } return Dims{f, n / f}; }
  }
}
template <class E> static void by_value(tensor::Tensor<E> t, E x) { if (t.size()) { t.at_seq(0) = x; t.fill_with(x); } }
template <class E> static tensor::Tensor<E> echo(const tensor::Tensor<E> &t) { return t; }
template <class E> static tensor::Tensor<E> changed(tensor::Tensor<E> t, E x) { if (t.size()) *t.begin() = x; return t; }
template <class E> static void write_range(tensor::Tensor<E> &t, Arr<E> &m, mon::Rng &r, const tensor::Tensor<E> *src, const Arr<E> *sm, E x) {
  // a whole leading index or everything
  long d = m.rank() ? m.d[0] : 0;
  if (src) {  // same dimensions
    switch (m.rank()) {
    case 1: t.at(range()) = *src; break;
    case 2: t.at(range(), range()) = *src; break;
    default: t.at(range(), range(), range()) = *src;
    }
    m.v = sm->v;
    return;
  }
  long k = r.below(d);
  for (long i = 0; i < m.size(); i++) if (i % d == k) m.v[i] = x;
  switch (m.rank()) {
  case 1: t.at(range(k)) = x; break;
  case 2: t.at(range(k), range()) = x; break;
  default: t.at(range(k), range(), range()) = x;
  }
}
static void fft_too(CTensor &t, Arr<cdouble> &m) { tensor::fftw_inplace(t, tensor::FFTW_FORWARD); m = from_tensor(t); }
static void fft_too(RTensor &, Arr<double> &) {}
static bool is_complex(double) { return false; }
static bool is_complex(cdouble) { return true; }
static RTensor same_tensor(const RTensor &t) { return tensor::real(tensor::conj(t)); }
static CTensor same_tensor(const CTensor &t) { return tensor::to_complex(t); }

template <class E> static void history(Case &c, bool storage, int steps) {
  typedef tensor::Tensor<E> T;
  Pool<E> P(c, storage);
  mon::Rng &r = c.r;
  auto fresh_tensor = [&]() {
    Arr<E> m = distinct_arr<E>(r, some_dims(r));
    P.add(to_tensor(m), m, P.next++);
  };
  fresh_tensor();
  c.what << "history of " << steps;
  for (int s = 0; s < steps; s++) {
    if (P.ts.empty() || (P.ts.size() < 3 && r.chance(0.2))) { P.say("new"); fresh_tensor(); P.verify("new"); continue; }
    if (P.ts.size() > 7 || r.chance(0.06)) {
      int k = r.below(P.ts.size());
      P.say("drop" + std::to_string(k));
      P.ts.erase(P.ts.begin() + k);
      P.verify("drop");
      continue;
    }
    int k = r.below(P.ts.size()), l = r.below(P.ts.size());
    typename Pool<E>::TH &h = *P.ts[k], &g = *P.ts[l];
    long n = h.m.size();
    E x = value<E>(r);
    int op = r.below(storage ? 34 : 36);
    std::string id = std::to_string(op) + "(" + std::to_string(k) + "," + std::to_string(l) + ")";
    P.say(id);
    switch (op) {
    case 0: case 1: P.add(h.t, h.m, h.sid); break;                                    // copy
    case 2: { std::unique_ptr<typename Pool<E>::TH> q(new typename Pool<E>::TH{T(h.t), h.m, h.sid}); P.ts.push_back(std::move(q)); break; }
    case 3: case 4: h.t = g.t; h.m = g.m; h.sid = g.sid; break;                       // assignment, sometimes to itself
    case 5: { Dims d = other_dims(r, n, h.m.d); if (total(d) != n) break; h.t.reshape(to_indices(d)); h.m.d = d; break; }
    case 6: {
      Dims d = other_dims(r, n, h.m.d);
      if (total(d) != n) break;
      Arr<E> m = h.m; m.d = d;
      if (r.chance(0.4)) P.add(T(to_indices(d), h.t), m, h.sid);
      else if (d.size() == 1) P.add(reshape(h.t, d[0]), m, h.sid);
      else if (d.size() == 2 && r.chance(0.5)) P.add(reshape(h.t, d[0], d[1]), m, h.sid);
      else P.add(reshape(h.t, to_indices(d)), m, h.sid);
      break;
    }
    case 7: { Arr<E> m = h.m; m.d = Dims{n}; P.add(flatten(h.t), m, h.sid); break; }
    case 8: {
      if (n == 0) break;
      Arr<E> m = h.m; m.d.clear();
      for (long d : h.m.d) if (d != 1) m.d.push_back(d);
      if (m.d.empty()) break;
      P.add(squeeze(h.t), m, h.sid); break;
    }
    case 9: {                                                                          // through a vector
      Vector<E> v = h.t;
      Arr<E> m = h.m; m.d = Dims{n};
      P.add(T(v), m, h.sid); break;
    }
    case 10: if (P.vs.size() < 3) { std::unique_ptr<typename Pool<E>::VH> v(new typename Pool<E>::VH{Vector<E>(h.t), h.m.v, h.sid}); P.vs.push_back(std::move(v)); }
             else P.vs.erase(P.vs.begin() + r.below(P.vs.size()));
      break;
    case 11: case 12: case 13: {                                                       // element writes
      if (!n) break;
      long i = r.below(n);
      Dims ix = unpos(h.m.d, i);
      int how = r.below(4);
      if (how == 0) h.t.at_seq(i) = x;
      else if (how == 1) h.t.begin()[i] = x;
      else if (how == 2 && h.m.rank() == 1) h.t.at(neg(r, i, n)) = x;
      else if (h.m.rank() == 2) h.t.at(neg(r, ix[0], h.m.d[0]), neg(r, ix[1], h.m.d[1])) = x;
      else if (h.m.rank() == 3) h.t.at(ix[0], neg(r, ix[1], h.m.d[1]), ix[2]) = x;
      else h.t.at_seq(i) = x;
      h.m.v[i] = x;
      P.written(h);
      break;
    }
    case 14: if (n) { h.t.fill_with(x); std::fill(h.m.v.begin(), h.m.v.end(), x); P.written(h); } break;
    case 15: if (n) { h.t.fill_with_zeros(); std::fill(h.m.v.begin(), h.m.v.end(), E(0)); P.written(h); } break;
    case 16: if (n) { h.t.randomize(); h.m = from_tensor(h.t); P.written(h); } break;
    case 17: case 18: {                                                                // a += b, also with itself
      if (h.m.d != g.m.d || !n) break;
      bool plus = r.chance(0.5);
      if (plus) h.t += g.t; else h.t -= g.t;
      for (long i = 0; i < n; i++) { E b = g.m.v[i]; if (plus) h.m.v[i] = h.m.v[i] + b; else h.m.v[i] = h.m.v[i] - b; }
      P.written(h);
      break;
    }
    case 19: {
      if (!n) break;
      E y = E(r.in(1, 3));
      int how = r.below(3);
      if (how == 0) h.t += y; else if (how == 1) h.t -= y; else h.t *= 2.0;
      for (long i = 0; i < n; i++) h.m.v[i] = how == 0 ? h.m.v[i] + y : how == 1 ? h.m.v[i] - y : h.m.v[i] * 2.0;
      P.written(h);
      break;
    }
    case 20: if (n && h.m.rank() <= 3) { write_range<E>(h.t, h.m, r, 0, 0, x); P.written(h); } break;
    case 21: {
      if (!n || h.m.rank() > 3) break;
      Arr<E> sm = random_arr<E>(r, h.m.d, IDS);
      T src = to_tensor(sm);
      write_range<E>(h.t, h.m, r, &src, &sm, x);
      P.written(h);
      break;
    }
    case 22: {                                                                         // from another handle of the same size
      if (!n || h.m.d != g.m.d || h.m.rank() > 3) break;
      Arr<E> sm = g.m;
      write_range<E>(h.t, h.m, r, &g.t, &sm, x);
      if (&h != &g) P.written(h); else P.fresh(h);  // the source is a handle of its own for the time of the call
      break;
    }
    case 23: {                                                                         // slice of itself: a(…) is a reader
      if (!n) break;
      if (h.m.rank() == 1 && n > 1) {
        bool at_once = r.chance(0.5);
        if (at_once) h.t.at(range(0, n - 2)) = h.t(range(1, n - 1));
        else { T part = h.t(range(1, n - 1)); h.t.at(range(0, n - 2)) = part; }
        for (long i = 0; i + 1 < n; i++) h.m.v[i] = h.m.v[i + 1];
        if (at_once) P.fresh(h); else P.written(h);  // the view holds the elements until it is gone
      }
      break;
    }
    case 24: {                                                                         // a view outlives a change of its tensor
      if (!n || h.m.rank() != 1) break;
      const typename T::view &w = h.t(range());
      Arr<E> before = h.m;
      h.t.at(0) = x;
      T copy = w;
      expect_same(c, copy, before, "view after a write");
      h.m.v[0] = x;
      h.sid = P.next++;  // it was shared with the view
      break;
    }
    case 25: {
      Arr<E> m = h.m;
      T copy = h.t(range());
      m.d = Dims{n};
      P.add(copy, m, P.next++);
      break;
    }
    case 26: by_value<E>(h.t, x); break;
    case 27: P.add(echo(h.t), h.m, h.sid); break;
    case 28: if (n) { Arr<E> m = h.m; m.v[0] = x; P.add(changed<E>(h.t, x), m, P.next++); } break;
    case 29: std::swap(h.t, g.t); std::swap(h.m, g.m); std::swap(h.sid, g.sid); break;
    case 30: {                                                                         // dimensions are values too
      Indices d = h.t.dimensions();
      Indices e = d;
      for (long i = 0; i < d.size(); i++) d.at(i) += 1 + i;
      expect_dims(c, h.t.dimensions(), h.m.d);
      expect_dims(c, e, h.m.d);
      break;
    }
    case 31: { P.add(same_tensor(h.t), h.m, h.sid); break; }
    case 32: {                                                                         // reading
      const T &t = h.t;
      long i = n ? r.below(n) : 0;
      if (n) { CHECK_MSG(c, same(t[i], h.m.v[i]), "read", "element " << i); }
      (void)sum(t); (void)all_equal(t, t); (void)t.dimension(0); (void)(t.end() - t.begin());
      break;
    }
    case 33: if (n && is_complex(E())) { fft_too(h.t, h.m); if (P.owners(h.sid) > 1) h.sid = P.next++; } else if (n && h.m.rank()) {
        Arr<double> sv = random_arr<double>(r, Dims{h.m.d[0]}, INTS);
        scale_inplace(h.t, 0, to_tensor(sv));
        h.m = from_tensor(h.t);
        P.written(h);
      }
      break;
    case 34: case 35: {                                                                // a writable slice outlives copies of its tensor
      if (!n || h.m.rank() < 1 || h.m.rank() > 2 || h.m.d[0] < 1) break;
      long d = h.m.d[0], i0 = r.below(d), i1 = r.in(i0, d - 1), rows = i1 - i0 + 1, cols = n / d;
      auto &&w = h.m.rank() == 1 ? h.t.at(range(i0, i1)) : h.t.at(range(i0, i1), range());
      int added = -1, before = h.sid;
      if (r.chance(0.8)) added = P.add(h.t, h.m, before);
      if (r.chance(0.3)) { g.t = h.t; g.m = h.m; g.sid = h.sid; }
      if (r.chance(0.3)) for (auto &o : P.ts) if (o.get() != &h && o->sid == before && o->m.size()) {   // another owner writes meanwhile
        o->t.at_seq(0) = x; o->m.v[0] = x; P.written(*o); break; }
      switch (r.below(3)) {
      case 0: w = x; for (long j = 0; j < cols; j++) for (long i = i0; i <= i1; i++) h.m.v[i + d * j] = x; break;
      case 1: {
        Arr<E> sm = random_arr<E>(r, Dims{rows, cols}, INTS);
        w = to_tensor(sm);
        for (long j = 0; j < cols; j++) for (long i = 0; i < rows; i++) h.m.v[i0 + i + d * j] = sm.v[i + rows * j];
        break;
      }
      default: {
        Arr<E> sm = random_arr<E>(r, Dims{rows * cols}, INTS);
        T src = to_tensor(sm);
        w = src(range());
        for (long j = 0; j < cols; j++) for (long i = 0; i < rows; i++) h.m.v[i0 + i + d * j] = sm.v[i + rows * j];
      }
      }
      (void)added;
      P.written(h);
      break;
    }
    }
    P.verify(id.substr(0, id.find('(')));
    if (P.vs.size() && r.chance(0.15)) {                                               // vectors
      int q = r.below(P.vs.size());
      typename Pool<E>::VH &v = *P.vs[q];
      int how = r.below(6);
      P.say("v" + std::to_string(how) + "(" + std::to_string(q) + ")");
      if (how == 0 && v.m.size()) { v.v.at(0) = x; v.m[0] = x; P.written(v); }
      else if (how == 1 && v.m.size()) { *(v.v.end() - 1) = x; v.m.back() = x; P.written(v); }
      else if (how == 2) { typename Pool<E>::VH &w = *P.vs[r.below(P.vs.size())]; v.v = w.v; v.m = w.m; v.sid = w.sid; }
      else if (how == 3) { long m = r.below(5); v.v.resize(m); for (long i = 0; i < m; i++) v.v.at(i) = x; v.m.assign(m, x); v.sid = P.next++; }
      else if (how == 4 && v.m.size()) { P.add(T(v.v), [&] { Arr<E> m(Dims{(long)v.m.size()}); m.v = v.m; return m; }(), v.sid); }
      else if (how == 5) { const Vector<E> &w = v.v; for (size_t i = 0; i < v.m.size(); i++) CHECK_MSG(c, same(w[i], v.m[i]), "vector read", i); (void)(w.end() - w.begin()); }
      P.verify("v" + std::to_string(how));
    }
  }
  c.saw(P.log);
}

FAMILY(P01, real, 6000, 400000) { history<double>(c, false, c.r.in(20, 60)); }
FAMILY(P01, complex, 6000, 400000) { history<cdouble>(c, false, c.r.in(20, 60)); }
// Very many handles to one store: the count of owners has to hold however many there are.
template <class H, class W, class R> static void crowd(Case &c, const H &first, const W &write, const R &read) {
  mon::Rng &r = c.r;
  long sizes[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 131072};
  long n = r.chance(0.5) ? sizes[r.below(9)] + r.in(-1, 1) : r.in(2, 150000);
  c.what << n << " copies";
  c.ready();
  c.saw_what();
  const H mine(first);
  double was = read(mine);
  std::vector<H> all;
  all.reserve(n);
  if (r.chance(0.5)) all.resize(n, mine);
  else for (long i = 0; i < n; i++) all.push_back(i ? all[r.below(i)] : mine);
  long k = r.below(n), gone = r.chance(0.3) ? r.below(n) : 0;
  write(all[k]);
  mon::shared()->events += n;
  long bad = 0, own = 0;
  for (long i = 0; i < n; i++) if (i == k) own = read(all[i]) != was; else bad += read(all[i]) != was;
  CHECK_MSG(c, own, "crowd:own", "the handle that was written does not show it, among " << n);
  CHECK_MSG(c, !bad && read(mine) == was, "crowd:others", bad << " of " << n << " other handles changed");
  for (long i = 0; i < gone; i++) all.pop_back();
  CHECK_MSG(c, read(mine) == was, "crowd:last", "after " << gone << " of " << n << " copies were destroyed");
}
FAMILY(P01, crowd, 64, 2000) {
  int kind = c.r.below(5);
  c.what << "kind " << kind << ", ";
  RTensor t(2); t.at(0) = 3; t.at(1) = 4;
  switch (kind) {
  case 0: crowd(c, t, [](RTensor &h) { h.at(0) = 8; }, [](const RTensor &h) { return h[0]; }); break;
  case 1: { CTensor z = tensor::to_complex(t); crowd(c, z, [](CTensor &h) { h *= 2.0; }, [](const CTensor &h) { return real(h[0]); }); break; }
  case 2: { Indices v(1); v.at(0) = 5; crowd(c, v, [](Indices &h) { h.at(0) = 8; }, [](const Indices &h) { return (double)h[0]; }); break; }
  case 3: { Vector<double> v(t); crowd(c, v, [](Vector<double> &h) { *h.begin() = 8; }, [](const Vector<double> &h) { return h[0]; }); break; }
  default: { const RSparse s = RSparse::eye(2, 2); crowd(c, s, [](RSparse &h) { h = h * 2.0; }, [](const RSparse &h) { return h(0, 0); }); }
  }
}
FAMILY(P28, real, 6000, 400000) { history<double>(c, true, c.r.in(20, 60)); }
FAMILY(P28, complex, 6000, 400000) { history<cdouble>(c, true, c.r.in(20, 60)); }

// ---- what a call does to what it was given ------------------------------------------------------------
static bool intact(const std::deque<std::unique_ptr<calls::Held>> &v, size_t &which) {
  for (which = 0; which < v.size(); which++) if (!v[which]->intact()) return false;
  return true;
}
FAMILY(P01, calls, 40000, 2000000) {
  const calls::Call &k = calls::all()[c.index % calls::all().size()];
  calls::Args a(c, true, c.r.chance(0.6));
  c.what << k.name;
  c.ready();
  k.fn(a);
  c.what << " " << a.text.str();
  c.ready();
  c.saw_what();
  size_t i = 0;
  std::string key = k.name;
  CHECK_MSG(c, intact(a.ins, i), key + ":input changed", "argument " << i << " or a copy of it changed");
  CHECK_MSG(c, intact(a.outs, i), key + ":result changed", "result " << i << " changed after it was returned");
  for (auto &o : a.outs) o->spoil();  // writing to a result
  CHECK_MSG(c, intact(a.ins, i), key + ":result shares with input", "argument " << i << " changed when a result was written");
  calls::Args b(c, true, false);
  c.r = mon::Rng(mon::mix(c.index) ^ mon::mix(mon::opt().seed));
  k.fn(b);
  for (auto &o : b.ins) o->spoil();   // writing to an argument
  CHECK_MSG(c, intact(b.outs, i), key + ":input shares with result", "result " << i << " changed when an argument was written");
}
// Small values that are not tensors of numbers
template <class V, class E> static void small_history(Case &c, std::function<E(mon::Rng &)> val) {
  mon::Rng &r = c.r;
  std::vector<std::unique_ptr<V>> p;
  std::vector<std::vector<E>> m;
  std::string log;
  auto fresh = [&] {
    long n = r.in(0, 6);
    V v(n);
    std::vector<E> w(n);
    for (long i = 0; i < n; i++) { w[i] = val(r); v.at(i) = w[i]; }
    p.push_back(std::unique_ptr<V>(new V(v)));
    m.push_back(w);
  };
  fresh();
  for (int s = 0; s < 30; s++) {
    size_t k = r.below(p.size()), l = r.below(p.size());
    int op = r.below(8);
    log += std::to_string(op) + "(" + std::to_string(k) + "," + std::to_string(l) + ");";
    c.what.str(log); c.ready();
    switch (op) {
    case 0: p.push_back(std::unique_ptr<V>(new V(*p[k]))); m.push_back(m[k]); break;
    case 1: *p[k] = *p[l]; m[k] = m[l]; break;
    case 2: case 3: if (m[k].size()) { long i = r.below(m[k].size()); E x = val(r); p[k]->at(i) = x; m[k][i] = x; } break;
    case 4: if (m[k].size()) { E x = val(r); for (E *i = p[k]->begin(); i != p[k]->end(); ++i) *i = x; m[k].assign(m[k].size(), x); } break;
    case 5: if (p.size() > 1) { p.erase(p.begin() + k); m.erase(m.begin() + k); } break;
    case 6: { long n = r.in(0, 4); p[k]->resize(n); m[k].resize(n); for (long i = 0; i < n; i++) { m[k][i] = val(r); p[k]->at(i) = m[k][i]; } break; }
    case 7: fresh(); break;
    }
    mon::shared()->events++;
    for (size_t i = 0; i < p.size(); i++) {
      const V &v = *p[i];
      bool ok = v.size() == (long)m[i].size();
      for (size_t j = 0; ok && j < m[i].size(); j++) ok = v[j] == m[i][j];
      CHECK_MSG(c, ok, "op" + std::to_string(op), "handle " << i << " has other values than were put into it, after " << log);
    }
    if (p.size() > 8) { p.pop_back(); m.pop_back(); }
  }
  c.saw(log);
}
FAMILY(P01, indices, 6000, 400000) { small_history<Indices, long>(c, [](mon::Rng &r) { return r.in(-9, 99); }); }
FAMILY(P01, booleans, 4000, 300000) { small_history<Booleans, bool>(c, [](mon::Rng &r) { return r.chance(0.5); }); }
template <class E> static void sparse_history(Case &c) {
  typedef tensor::Sparse<E> S;
  mon::Rng &r = c.r;
  std::vector<std::unique_ptr<S>> p;
  std::vector<calls::SparseSnap<E>> m;
  std::string log;
  calls::Args a(c, false, true);
  auto add = [&](const S &s) { p.push_back(std::unique_ptr<S>(new S(s))); m.push_back(calls::snap(s)); };
  add(a.make_sparse<E>(a.dims(2)));
  for (int s = 0; s < 25; s++) {
    size_t k = r.below(p.size()), l = r.below(p.size());
    int op = r.below(10);
    log += std::to_string(op) + "(" + std::to_string(k) + "," + std::to_string(l) + ");";
    c.what.str(log); c.ready();
    switch (op) {
    case 0: add(*p[k]); break;
    case 1: *p[k] = *p[l]; m[k] = m[l]; break;
    case 2: *p[k] = *p[k] * E(2.0); m[k] = calls::snap(*p[k]); break;
    case 3: *p[k] = *p[k] + *p[k]; m[k] = calls::snap(*p[k]); break;
    case 4: *p[k] = transpose(*p[k]); m[k] = calls::snap(*p[k]); break;
    case 5: { tensor::Tensor<E> t = full(*p[k]); calls::scribble(t); break; }
    case 6: {  // its parts are values too
      Indices d = p[k]->dimensions(), rs = p[k]->priv_row_start(), ci = p[k]->priv_column();
      tensor::Tensor<E> v = p[k]->priv_data();
      calls::scribble(d); calls::scribble(rs); calls::scribble(ci); calls::scribble(v);
      break;
    }
    case 7: {  // what it is built from is not kept
      long n = r.in(0, 6);
      Indices ri = a.indices(n, 0, 3), ci = a.indices(n, 0, 3);
      tensor::Tensor<E> v = a.make<E>(Dims{n});
      S t(ri, ci, v, 4, 4);
      calls::SparseSnap<E> was = calls::snap(t);
      calls::scribble(ri); calls::scribble(ci); calls::scribble(v);
      CHECK_MSG(c, calls::eq(calls::snap(t), was), "built from parts", "the matrix changed with them after " << log);
      Indices dims = t.priv_dims(), rs = t.priv_row_start(), cc = t.priv_column();
      tensor::Tensor<E> data = t.priv_data();
      S u(dims, rs, cc, data);
      calls::scribble(dims); calls::scribble(rs); calls::scribble(cc); calls::scribble(data);
      CHECK_MSG(c, calls::eq(calls::snap(u), was) && calls::eq(calls::snap(t), was), "built from rows", "the matrix changed with them after " << log);
      add(u);
      break;
    }
    case 8: if (p.size() > 1) { p.erase(p.begin() + k); m.erase(m.begin() + k); } break;
    case 9: add(a.make_sparse<E>(a.dims(2))); break;
    }
    mon::shared()->events++;
    for (size_t i = 0; i < p.size(); i++)
      CHECK_MSG(c, calls::eq(calls::snap(*p[i]), m[i]), "op" + std::to_string(op), "matrix " << i << " changed after " << log);
    if (p.size() > 6) { p.pop_back(); m.pop_back(); }
    if (norm_inf_all(from_tensor(p[0]->priv_data())) > 1e100) break;
  }
  c.saw(log);
}
FAMILY(P01, sparse, 6000, 300000) { if (c.r.chance(0.5)) sparse_history<double>(c); else sparse_history<cdouble>(c); }

// ---- P28: allocations made by one operation ----------------------------------------------------------------
static volatile long big_allocs, big_size;
static void on_malloc(const volatile void *, size_t n) { if (big_size && (long)n >= big_size) big_allocs = big_allocs + 1; }
static void on_free(const volatile void *) {}
struct Counting {  // allocations of at least n bytes between construction and stop()
  explicit Counting(long n) {
    static bool once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    (void)once;
    big_allocs = 0;
    big_size = n;
  }
  long stop() { big_size = 0; return big_allocs; }
  ~Counting() { big_size = 0; }
};
template <class E> struct Holder { tensor::Tensor<E> t; int n; };
template <class E> static double sink(tensor::Tensor<E> t) { return std::abs(cdouble(t[0])); }
template <class E> static void allocations(Case &c) {
  typedef tensor::Tensor<E> T;
  mon::Rng &r = c.r;
  long n = r.in(3, 40) * 30;
  Dims d = r.chance(0.3) ? Dims{n} : r.chance(0.5) ? Dims{n / 30, 30} : Dims{n / 30, 5, 6};
  long bytes = n * sizeof(E);
  int op = r.below(28);
  bool shared = r.chance(0.5);
  c.what << "operation " << op << " on " << str(d) << (sizeof(E) > 8 ? " C" : " R") << (shared ? " shared" : " alone");
  c.ready();
  c.saw_what();
  Arr<E> m = random_arr<E>(r, d, INTS), m2 = random_arr<E>(r, d, INTS);
  T t = to_tensor(m), other = to_tensor(m2), twin;
  if (shared) twin = t;
  const T &ct = t;
  const E *before = ct.begin();
  Vector<E> v = other;
  long want = 0, got = 0;
  bool write = false, twin_moves = false;
  std::string key = "operation " + std::to_string(op);
  Indices nd = to_indices(Dims{n}), same_d = to_indices(d);
  volatile double keep = 0;
  long pos = r.below(n);
  E x(7.0), y(0);
  {
    Counting k(bytes);
    switch (op) {
    case 0: { T a(t); keep = sink(a); got = k.stop(); break; }
    case 1: { T a; a = t; a = a; got = k.stop(); break; }
    case 2: { T a(nd, t); got = k.stop(); break; }
    case 3: { t.reshape(nd); got = k.stop(); m.d = Dims{n}; break; }
    case 4: { T a = reshape(t, nd); T b = reshape(a, n, 1); T e = reshape(b, 1, n, 1); got = k.stop(); break; }
    case 5: { T a = flatten(t); T b = squeeze(a); got = k.stop(); break; }
    case 6: { Vector<E> a = t; Vector<E> b(a), e; e = b; T f(e); got = k.stop(); break; }
    case 7: { std::vector<T> a(5, t); a.push_back(t); got = k.stop(); break; }
    case 8: { keep = sink(t); got = k.stop(); break; }
    case 9: { Holder<E> a = {t, 1}, b = a; b = a; got = k.stop(); break; }
    case 10: { y = ct[pos]; for (typename T::const_iterator i = ct.begin(); i != ct.end(); ++i) y = *i; y = *t.begin_const(); (void)t.end_const(); got = k.stop(); break; }
    case 11: { y = sum(t); keep = norm2(t) + norm0(t); (void)all_equal(t, t); (void)t.dimensions(); (void)t.size(); got = k.stop(); break; }
    case 12: { if (d.size() == 1) y = ct(pos); else if (d.size() == 2) y = ct(pos % d[0], 3); else y = ct(pos % d[0], 1, -1); got = k.stop(); break; }
    case 13: { t.at_seq(pos) = x; got = k.stop(); m.v[pos] = x; write = true; break; }
    case 14: { if (d.size() == 1) t.at(pos) = x; else if (d.size() == 2) t.at(pos % d[0], pos / d[0]) = x; else t.at(pos % d[0], pos / d[0] % 5, pos / d[0] / 5) = x; got = k.stop(); m.v[pos] = x; write = true; break; }
    case 15: { for (typename T::iterator i = t.begin(); i != t.end(); ++i) *i = x; got = k.stop(); std::fill(m.v.begin(), m.v.end(), x); write = true; break; }
    case 16: { t.fill_with(x); got = k.stop(); std::fill(m.v.begin(), m.v.end(), x); write = true; break; }
    case 17: { t += other; got = k.stop(); for (long i = 0; i < n; i++) m.v[i] += m2.v[i]; write = true; break; }
    case 18: { t -= other; got = k.stop(); for (long i = 0; i < n; i++) m.v[i] -= m2.v[i]; write = true; break; }
    case 19: { t += t; got = k.stop(); for (long i = 0; i < n; i++) m.v[i] += m.v[i]; write = true; break; }
    case 20: { t *= 2.0; got = k.stop(); for (long i = 0; i < n; i++) m.v[i] *= 2.0; write = true; break; }
    case 21: { t -= x; got = k.stop(); for (long i = 0; i < n; i++) m.v[i] -= x; write = true; break; }
    case 22: { t /= E(2.0); got = k.stop(); for (long i = 0; i < n; i++) m.v[i] /= 2.0; write = true; break; }
    case 23: { t.at(range(pos)) = x; got = k.stop(); m.v[pos] = x; write = true; break; }
    case 24: { t *= other; got = k.stop(); for (long i = 0; i < n; i++) m.v[i] *= m2.v[i]; write = true; break; }
    case 25: { if (shared) { twin.at_seq(0) = x; twin_moves = true; } got = k.stop(); want = shared; break; }
    case 26: { t = T(); T a; got = k.stop(); m = Arr<E>(); break; }
    case 27: { T a = t; { T b = a; T e = b; } a = T(); t.at_seq(pos) = x; got = k.stop(); m.v[pos] = x; write = true; break; }
    }
  }
  if (write) want = shared;  // exactly one copy if the elements were shared, none if not
  CHECK_MSG(c, got == want, key + (write ? ":write" : ":read"), got << " allocations of the size of the elements, expected " << want);
  CHECK_MSG(c, same(from_tensor(t), m), key + ":value", show(from_tensor(t)));
  if (op == 26) return;
  if (!write || !shared) CHECK_MSG(c, ct.begin() == before, key + ":moved", "the elements moved");
  if (write && shared) {
    CHECK_MSG(c, ct.begin() != before, key + ":shared", "written in place although shared");
    CHECK_MSG(c, twin.begin_const() == before && twin.ref_count() == 1 && t.ref_count() == 1, key + ":twin", "the other handle moved");
  }
  if (twin_moves) CHECK_MSG(c, twin.begin_const() != before && twin.ref_count() == 1 && t.ref_count() == 1, key + ":twin", "the writer did not move");
}
FAMILY(P28, allocations, 30000, 1500000) { if (c.r.chance(0.5)) allocations<double>(c); else allocations<cdouble>(c); }
MON_MAIN
