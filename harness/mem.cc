// P02: memory.  The sanitizers, the guard in front of BLAS/LAPACK/FFTW and (in the plain build)
// memcheck watch; here are the workloads, and the judgement that everything is released again.
#include "calls.h"
#include <tensor/sdf.h>
#include <tensor/jobs.h>
#include <fstream>
#include <malloc.h>
#include <dirent.h>
#include <valgrind/memcheck.h>
using namespace ref;
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
extern "C" long verif_guard_calls __attribute__((weak));
using calls::Args;

static long live() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }
// Runs the same work again and again: what stays allocated may grow at first (tables that libraries
// keep) but not every time.
template <class F> static void released(Case &c, const std::string &key, F work) {
  if (!__sanitizer_get_current_allocated_bytes) { work(); return; }
  const int N = 6;
  long b[N + 1];
  for (int i = 0; i <= N; i++) { b[i] = live(); if (i < N) work(); }
  bool grows = true;
  for (int i = 2; i < N; i++) grows = grows && b[i + 1] > b[i];
  CHECK_MSG(c, !grows, key + ":leak", "allocated bytes before each repetition: " << b[0] << ' ' << b[1] << ' ' << b[2] << ' ' << b[3] << ' ' << b[4] << ' ' << b[5] << ' ' << b[6]);
}
static void memcheck(Case &c, const std::string &key) {
  static long before = 0;
  if (!RUNNING_ON_VALGRIND) return;
  long now = VALGRIND_COUNT_ERRORS;
  long d = now - before;
  before = now;
  CHECK_MSG(c, d == 0, key + ":memcheck", d << " errors reported by memcheck");
}
static u_int64_t guard_calls() { return &verif_guard_calls ? verif_guard_calls : 0; }

static double used(double x) { volatile double y = x; return y > 0 ? 1 : 0; }
// what comes out must be initialised: memcheck complains about branches on undefined values
template <class E> static void touch(const tensor::Tensor<E> &t) { for (long i = 0; i < t.size(); i++) used(mag(t[i])); }
struct TouchArgs : Args { TouchArgs(Case &c, bool small) : Args(c, false, small) {} };

static void run_calls(Case &c, bool small, bool keep) {
  const calls::Call &k = calls::all()[c.index % calls::all().size()];
  c.what << k.name << (small ? " (with empty dimensions)" : "");
  c.ready();
  mon::u64 s = c.r.s;
  long g = guard_calls();
  if (keep) {
    Args a(c, true, small);
    k.fn(a);
    c.what << ' ' << a.text.str();
    size_t i = 0;
    for (auto &o : a.outs) o->intact();  // reads every element
    (void)i;
    for (auto &o : a.outs) o->spoil();
  }
  c.ready();
  c.saw_what();
  released(c, k.name, [&] { c.r.s = s; Args a(c, false, small); k.fn(a); });
  mon::shared()->events += guard_calls() - g;
  memcheck(c, k.name);
}
FAMILY(P02, calls, 12000, 600000) { run_calls(c, false, true); }
FAMILY(P02, degenerate, 12000, 600000) { run_calls(c, true, true); }

// ---- objects with lives of their own --------------------------------------------------------------------
using tensor::Map;
static RTensor twice(const RTensor &x) { return x * 2.0; }
struct Diagonal { RTensor d; RTensor operator()(const RTensor &x) const { return d * x; } };
struct CDiagonal { CTensor d; CTensor operator()(const CTensor &x) const { return d * x; } };
struct Counted { static int n; int v; Counted() : v(7) { n++; } ~Counted() { n--; } };
int Counted::n = 0;
template <class A, class T> static void arpack_loop(Case &c, const T &m) {
  long n = m.rows();
  A p(n, linalg::LargestMagnitude, 1);
  if (c.r.chance(0.3)) p.set_random_start_vector();
  if (c.r.chance(0.3)) { T v = T::ones(ref::to_indices(Dims{n})); p.set_start_vector(v.begin_const()); }
  if (c.r.chance(0.3)) p.set_tolerance(1e-8);
  if (c.r.chance(0.3)) p.set_maxiter(200);
  bool cut = c.r.chance(0.2);
  for (int i = 0; i < 2000; i++) {
    auto s = p.update();
    if (s != A::Running) break;
    if (cut && i == 3) return;  // given up half way
    p.set_y(mmult(m, p.get_x()));
  }
  if (p.get_status() == A::Finished) {
    T V;
    T w = c.r.chance(0.5) ? p.get_data(&V) : p.get_data((T *)0);
    touch(w);
  }
}
static void lives(Case &c, int kind) {
  mon::Rng &r = c.r;
  Args a(c, false, false);
  long n = r.in(1, 9);
  switch (kind) {
  case 0: { Diagonal f = {a.make<double>(Dims{n}) + 10.0}; RTensor b = a.make<double>(Dims{n}); touch(linalg::cgs(f, b)); RTensor v; linalg::eig_power(f, n, &v, 30, 1e-3); break; }
  case 1: { n = r.in(5, 12); RTensor d(n); for (long i = 0; i < n; i++) d.at(i) = 1 + i; Diagonal f = {d}; RTensor V; touch(linalg::eigs(f, n, linalg::LargestMagnitude, 2, &V, 0)); touch(V); break; }
  case 2: { n = r.in(5, 12); CTensor d(n); for (long i = 0; i < n; i++) d.at(i) = cdouble(1 + i, 0); CDiagonal f = {d}; CTensor V; touch(linalg::eigs(f, n, linalg::LargestMagnitude, 2, &V, 0)); touch(V); break; }
  case 3: { n = r.in(6, 14); arpack_loop<linalg::RArpack>(c, a.make_regular<double>(n, true)); break; }
  case 4: { n = r.in(6, 14); arpack_loop<linalg::CArpack>(c, a.make_regular<cdouble>(n, true)); break; }
  case 5: {  // shared pointers
    typedef tensor::shared_ptr<Counted> P;
    {
      std::vector<P> v;
      v.push_back(P(new Counted));
      for (int i = 0; i < 12; i++) { long k = r.below(v.size()), l = r.below(v.size()); switch (r.below(4)) { case 0: v.push_back(v[k]); break; case 1: v[k] = v[l]; break; case 2: v.push_back(P(new Counted)); break; default: if (v.size() > 1) v.erase(v.begin() + k); } for (auto &p : v) if (p->v != 7 || (*p).v != 7) c.fail("shared_ptr", "points elsewhere"); }
    }
    CHECK_MSG(c, Counted::n == 0, "shared_ptr:released", Counted::n << " objects left"); break;
  }
  case 6: {  // handles
    typedef tensor::RefPointer<double> P;
    std::vector<P> v(1, P(r.in(0, 5)));
    for (int i = 0; i < 15; i++) { long k = r.below(v.size()), l = r.below(v.size()); switch (r.below(6)) { case 0: v.push_back(v[k]); break; case 1: v[k] = v[l]; break; case 2: v.push_back(P()); break; case 3: if (v[k].size()) *v[k].begin() = 1; break; case 4: v[k].reallocate(r.in(0, 4)); break; default: if (v.size() > 1) v.erase(v.begin() + k); } }
    double ext[3] = {1, 2, 3}; P q(ext, 3, false), s = q; *s.begin() = 5; P t(new double[4], 4), u = t; u.begin(); break;
  }
  case 7: {  // ranges and views
    RTensor x = a.make<double>(Dims{n, 4, 3}); Indices ix = a.indices(2, 0, 2);
    RTensor y = x(tensor::range(0, n - 1), tensor::range(ix), tensor::range(-1));
    { const RTensor::view &w = x(tensor::range(), tensor::range(1), tensor::range(0, 2, 2)); x = RTensor(); RTensor z = w, z2 = w; touch(z); touch(z2); }
    RTensor k = RTensor::zeros(5, 5); k.at(tensor::range(0, 2), tensor::range(ix)) = RTensor::ones(3, 2); k.at(tensor::range(1), tensor::range()) = 3.0; touch(k); break;
  }
  case 8: { std::vector<RTensor> v; for (int i = 0; i < 9; i++) v.push_back(a.make<double>(Dims{r.in(0, 4), r.in(0, 4)})); std::vector<RTensor> w(v); std::swap(v[0], v[3]); std::reverse(w.begin(), w.end()); v = w; v.erase(v.begin() + 2); std::vector<CSparse> s(3, CSparse(CTensor::eye(3))); s[1] = s[0] + s[2]; s.push_back(s[1]); break; }
  case 9: { std::unique_ptr<Map<RTensor>> p(new tensor::MatrixMap<RTensor>(a.make<double>(Dims{n, n}))); touch((*p)(a.make<double>(Dims{n}))); p.reset(new tensor::FunctionMap<RTensor(const RTensor &), RTensor>(twice)); touch((*p)(a.make<double>(Dims{n}))); break; }
  }
}
FAMILY(P02, objects, 4000, 200000) {
  int kind = c.index % 10;
  c.what << "objects " << kind << " seed " << c.r.s;
  c.ready();
  c.saw_what();
  mon::u64 s = c.r.s;
  released(c, "objects " + std::to_string(kind), [&] { c.r.s = s; lives(c, kind); });
  memcheck(c, "objects");
}
// ---- files --------------------------------------------------------------------------------------------------
static void file_session(Case &c, const std::string &f, int flags) {
  using namespace sdf;
  Args a(c, false, true);
  mon::Rng &r = c.r;
  unlink(f.c_str());
  RTensor x = a.make<double>(a.dims(r.in(1, 3)));
  CTensor z = a.make<cdouble>(a.dims(r.in(1, 3)));
  std::vector<RTensor> vr(r.in(0, 3), x);
  std::vector<CTensor> vc(r.in(0, 3), z);
  std::string name(r.below(63), 'n');
  {
    OutDataFile o(f, flags);
    o.dump(x, name); o.dump(z, "z"); o.dump(vr, "vr"); o.dump(vc, "vc"); o.dump(3, "i"); o.dump((size_t)4, "s"); o.dump(2.5, "d"); o.dump(cdouble(1, 2), "c");
    if (r.chance(0.5)) o.close();
  }
  InDataFile in(f);
  RTensor y; CTensor w; std::vector<RTensor> ur; std::vector<CTensor> uc; int i; size_t s; double d; cdouble k;
  in.load(&y, name); in.load(&w, "z"); in.load(&ur, "vr"); in.load(&uc, "vc"); in.load(&i, "i"); in.load(&s, "s"); in.load(&d, "d"); in.load(&k, "c");
  touch(y); touch(w); used(d + i + s + mag(k));
  for (auto &t : ur) touch(t);
  if (r.chance(0.5)) in.close();
}
static void wipe(const std::string &d) {
  if (DIR *h = opendir(d.c_str())) {
    while (dirent *e = readdir(h)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
    closedir(h);
    rmdir(d.c_str());
  }
}
static void jobs_session(Case &c, const std::string &dir) {
  mon::Rng &r = c.r;
  std::string f = dir + "/job.txt";
  { std::ofstream o(f.c_str()); o << "a 0 1 " << r.in(1, 4) << "\nb 2 3 " << r.in(1, 3) << "\n"; }
  const char *argv[] = {"prog", "--job", f.c_str()};
  std::string data = dir + "/data.dat";
  wipe(data);
  for (jobs::Job j(3, argv); j.to_do(); ++j) {
    used(j.get_value("a") + j.get_value_with_default("q", 2));
    if (!j.dataset_record_exists(data)) { jobs::Job::dataset d = j.open_dataset(data); jobs::Job::dataset e = d; e->dump(RTensor::ones(2, 2), "x"); j.dump_variables(*d); }
  }
}
FAMILY(P02, files, 1200, 30000) {
  int kind = c.index % 4;
  c.what << "files " << kind << " seed " << c.r.s;
  c.ready();
  c.saw_what();
  mon::u64 s = c.r.s;
  std::string dir = mon::scratch_dir();
  int fl[] = {sdf::DataFile::SDF_OVERWRITE, sdf::DataFile::SDF_PARANOID, sdf::DataFile::SDF_SHARED};
  released(c, "files", [&] { c.r.s = s; if (kind < 3) file_session(c, dir + "/f.dat", fl[kind]); else jobs_session(c, dir); });
  memcheck(c, "files");
}
MON_MAIN
