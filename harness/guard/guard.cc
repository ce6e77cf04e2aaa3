// Stands between the library and BLAS, LAPACK and FFTW (which are not instrumented) and judges
// every call: are the arguments legal, and does every array have room for what the routine may
// touch?  Active for P02 only (VERIF_GUARD=1).  A bad call ends the process like a sanitizer report.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <unistd.h>
#include <set>
#include <string>
typedef int I;
extern "C" void *__asan_region_is_poisoned(void *, size_t);
extern "C" void __sanitizer_print_stack_trace();
static bool active() { static int a = -1; if (a < 0) { const char *e = getenv("VERIF_GUARD"); a = e && *e == '1'; } return a; }
long verif_guard_calls = 0;
static void bad(const char *fn, const char *arg, const char *why) {
  fprintf(stderr, "==%d==ERROR: AddressSanitizer: invalid-call-%s-%s: %s\n", (int)getpid(), fn, arg, why);
  __sanitizer_print_stack_trace();
  fflush(stderr);
  _exit(77);
}
static void need(const char *fn, const char *arg, const void *p, long bytes) {
  if (!active() || bytes <= 0) return;
  if (!p) bad(fn, arg, "null array");
  if (__asan_region_is_poisoned(const_cast<void *>(p), bytes)) bad(fn, arg, "array too small or released");
}
static void legal(const char *fn, const char *arg, bool ok) { if (active() && !ok) bad(fn, arg, "illegal value"); }
static long mat(long m, long n, long ld) { return m <= 0 || n <= 0 ? 0 : (n - 1) * ld + m; }
static long vec(long n, long inc) { return n <= 0 ? 0 : (n - 1) * std::labs(inc) + 1; }
template <class F> static F real_fn(const char *name) {
  void *p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "guard: no %s\n", name); _exit(99); }
  verif_guard_calls++;
  return (F)p;
}
#define REAL(name, type) static type f = real_fn<type>(#name); verif_guard_calls++

extern "C" {
void xerbla_(const char *name, I *info, int) {
  if (active()) bad(std::string(name, strnlen(name, 6)).c_str(), "xerbla", "the routine refused an argument");
}
// ---- LAPACK
#define GESV(name, T)                                                                                        \
  int name(I *n, I *nrhs, T *a, I *lda, I *ipiv, T *b, I *ldb, I *info) {                                    \
    typedef int (*F)(I *, I *, T *, I *, I *, T *, I *, I *);                                                \
    REAL(name, F);                                                                                           \
    legal(#name, "n", *n >= 0 && *nrhs >= 0);                                                                \
    legal(#name, "ld", *lda >= std::max(1, *n) && *ldb >= std::max(1, *n));                                  \
    need(#name, "a", a, mat(*n, *n, *lda) * sizeof(T));                                                      \
    need(#name, "ipiv", ipiv, *n * sizeof(I));                                                               \
    need(#name, "b", b, mat(*n, *nrhs, *ldb) * sizeof(T));                                                   \
    need(#name, "info", info, sizeof(I));                                                                    \
    return f(n, nrhs, a, lda, ipiv, b, ldb, info);                                                           \
  }
struct Z { double r, i; };
GESV(dgesv_, double)
GESV(zgesv_, Z)
static void check_svd(const char *fn, char ju, char jv, I m, I n, void *a, I lda, void *s, void *u, I ldu, void *v, I ldv, void *work, I lwork, I minwork, long e) {
  long k = std::min(m, n);
  legal(fn, "dims", m >= 0 && n >= 0 && lda >= std::max(1, m));
  need(fn, "a", a, mat(m, n, lda) * e);
  need(fn, "s", s, k * 8);
  if (ju == 'A' || ju == 'S') { legal(fn, "ldu", ldu >= std::max(1, m)); need(fn, "u", u, mat(m, ju == 'A' ? m : k, ldu) * e); }
  if (jv == 'A' || jv == 'S') { long r = jv == 'A' ? n : k; legal(fn, "ldvt", ldv >= std::max(1L, r)); need(fn, "vt", v, mat(r, n, ldv) * e); }
  if (lwork != -1) { legal(fn, "lwork", lwork >= minwork); need(fn, "work", work, lwork * e); } else need(fn, "work", work, e);
}
int dgesvd_(char *ju, char *jv, I *m, I *n, double *a, I *lda, double *s, double *u, I *ldu, double *v, I *ldv, double *work, I *lwork, I *info) {
  typedef int (*F)(char *, char *, I *, I *, double *, I *, double *, double *, I *, double *, I *, double *, I *, I *);
  REAL(dgesvd_, F);
  I k = std::min(*m, *n);
  check_svd("dgesvd", *ju, *jv, *m, *n, a, *lda, s, u, *ldu, v, *ldv, work, *lwork, std::max(1, std::max(3 * k + std::max(*m, *n), 5 * k)), 8);
  return f(ju, jv, m, n, a, lda, s, u, ldu, v, ldv, work, lwork, info);
}
int zgesvd_(char *ju, char *jv, I *m, I *n, Z *a, I *lda, double *s, Z *u, I *ldu, Z *v, I *ldv, Z *work, I *lwork, double *rwork, I *info) {
  typedef int (*F)(char *, char *, I *, I *, Z *, I *, double *, Z *, I *, Z *, I *, Z *, I *, double *, I *);
  REAL(zgesvd_, F);
  I k = std::min(*m, *n);
  check_svd("zgesvd", *ju, *jv, *m, *n, a, *lda, s, u, *ldu, v, *ldv, work, *lwork, std::max(1, 2 * k + std::max(*m, *n)), 16);
  if (*lwork != -1) need("zgesvd", "rwork", rwork, 5L * k * 8);
  return f(ju, jv, m, n, a, lda, s, u, ldu, v, ldv, work, lwork, rwork, info);
}
int dgeev_(char *jl, char *jr, I *n, double *a, I *lda, double *wr, double *wi, double *vl, I *ldl, double *vr, I *ldr, double *work, I *lwork, I *info) {
  typedef int (*F)(char *, char *, I *, double *, I *, double *, double *, double *, I *, double *, I *, double *, I *, I *);
  REAL(dgeev_, F);
  const char *fn = "dgeev";
  legal(fn, "n", *n >= 0 && *lda >= std::max(1, *n) && *ldl >= 1 && *ldr >= 1);
  need(fn, "a", a, mat(*n, *n, *lda) * 8);
  need(fn, "wr", wr, *n * 8L); need(fn, "wi", wi, *n * 8L);
  if (*jl == 'V') { legal(fn, "ldvl", *ldl >= *n); need(fn, "vl", vl, mat(*n, *n, *ldl) * 8); }
  if (*jr == 'V') { legal(fn, "ldvr", *ldr >= *n); need(fn, "vr", vr, mat(*n, *n, *ldr) * 8); }
  if (*lwork != -1) { legal(fn, "lwork", *lwork >= std::max(1, (*jl == 'V' || *jr == 'V' ? 4 : 3) * *n)); need(fn, "work", work, *lwork * 8L); }
  return f(jl, jr, n, a, lda, wr, wi, vl, ldl, vr, ldr, work, lwork, info);
}
int zgeev_(char *jl, char *jr, I *n, Z *a, I *lda, Z *w, Z *vl, I *ldl, Z *vr, I *ldr, Z *work, I *lwork, double *rwork, I *info) {
  typedef int (*F)(char *, char *, I *, Z *, I *, Z *, Z *, I *, Z *, I *, Z *, I *, double *, I *);
  REAL(zgeev_, F);
  const char *fn = "zgeev";
  legal(fn, "n", *n >= 0 && *lda >= std::max(1, *n) && *ldl >= 1 && *ldr >= 1);
  need(fn, "a", a, mat(*n, *n, *lda) * 16);
  need(fn, "w", w, *n * 16L);
  if (*jl == 'V') { legal(fn, "ldvl", *ldl >= *n); need(fn, "vl", vl, mat(*n, *n, *ldl) * 16); }
  if (*jr == 'V') { legal(fn, "ldvr", *ldr >= *n); need(fn, "vr", vr, mat(*n, *n, *ldr) * 16); }
  if (*lwork != -1) { legal(fn, "lwork", *lwork >= std::max(1, 2 * *n)); need(fn, "work", work, *lwork * 16L); need(fn, "rwork", rwork, 2L * *n * 8); }
  return f(jl, jr, n, a, lda, w, vl, ldl, vr, ldr, work, lwork, rwork, info);
}
void dsyev_(char *jz, char *ul, I *n, double *a, I *lda, double *w, double *work, I *lwork, I *info) {
  typedef void (*F)(char *, char *, I *, double *, I *, double *, double *, I *, I *);
  REAL(dsyev_, F);
  legal("dsyev", "n", *n >= 0 && *lda >= std::max(1, *n) && strchr("NV", *jz) && strchr("UL", *ul));
  need("dsyev", "a", a, mat(*n, *n, *lda) * 8);
  need("dsyev", "w", w, *n * 8L);
  if (*lwork != -1) { legal("dsyev", "lwork", *lwork >= std::max(1, 3 * *n - 1)); need("dsyev", "work", work, *lwork * 8L); }
  f(jz, ul, n, a, lda, w, work, lwork, info);
}
void zheev_(char *jz, char *ul, I *n, Z *a, I *lda, double *w, Z *work, I *lwork, double *rwork, I *info) {
  typedef void (*F)(char *, char *, I *, Z *, I *, double *, Z *, I *, double *, I *);
  REAL(zheev_, F);
  legal("zheev", "n", *n >= 0 && *lda >= std::max(1, *n));
  need("zheev", "a", a, mat(*n, *n, *lda) * 16);
  need("zheev", "w", w, *n * 8L);
  if (*lwork != -1) { legal("zheev", "lwork", *lwork >= std::max(1, 2 * *n - 1)); need("zheev", "work", work, *lwork * 16L); need("zheev", "rwork", rwork, std::max(1L, 3L * *n - 2) * 8); }
  f(jz, ul, n, a, lda, w, work, lwork, rwork, info);
}
// ---- BLAS (column major, 111 = no transposition)
static void check_gemm(const char *fn, int order, int ta, int tb, I m, I n, I k, const void *a, I lda, const void *b, I ldb, void *c, I ldc, long e) {
  bool na = ta == 111, nb = tb == 111;
  legal(fn, "order", order == 102);
  legal(fn, "dims", m >= 0 && n >= 0 && k >= 0);
  legal(fn, "lda", lda >= std::max(1, na ? m : k));
  legal(fn, "ldb", ldb >= std::max(1, nb ? k : n));
  legal(fn, "ldc", ldc >= std::max(1, m));
  if (!m || !n) return;
  need(fn, "a", a, (na ? mat(m, k, lda) : mat(k, m, lda)) * e);
  need(fn, "b", b, (nb ? mat(k, n, ldb) : mat(n, k, ldb)) * e);
  need(fn, "c", c, mat(m, n, ldc) * e);
}
void cblas_dgemm(int o, int ta, int tb, I m, I n, I k, double al, const double *a, I lda, const double *b, I ldb, double be, double *c, I ldc) {
  typedef void (*F)(int, int, int, I, I, I, double, const double *, I, const double *, I, double, double *, I);
  REAL(cblas_dgemm, F);
  check_gemm("dgemm", o, ta, tb, m, n, k, a, lda, b, ldb, c, ldc, 8);
  f(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc);
}
void cblas_zgemm(int o, int ta, int tb, I m, I n, I k, const void *al, const void *a, I lda, const void *b, I ldb, const void *be, void *c, I ldc) {
  typedef void (*F)(int, int, int, I, I, I, const void *, const void *, I, const void *, I, const void *, void *, I);
  REAL(cblas_zgemm, F);
  check_gemm("zgemm", o, ta, tb, m, n, k, a, lda, b, ldb, c, ldc, 16);
  f(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc);
}
static void check_gemv(const char *fn, int order, int t, I m, I n, const void *a, I lda, const void *x, I ix, void *y, I iy, long e) {
  bool nt = t == 111;
  legal(fn, "order", order == 102);
  legal(fn, "dims", m >= 0 && n >= 0 && ix != 0 && iy != 0);
  legal(fn, "lda", lda >= std::max(1, m));
  if (!m || !n) return;
  need(fn, "a", a, mat(m, n, lda) * e);
  need(fn, "x", x, vec(nt ? n : m, ix) * e);
  need(fn, "y", y, vec(nt ? m : n, iy) * e);
}
void cblas_dgemv(int o, int t, I m, I n, double al, const double *a, I lda, const double *x, I ix, double be, double *y, I iy) {
  typedef void (*F)(int, int, I, I, double, const double *, I, const double *, I, double, double *, I);
  REAL(cblas_dgemv, F);
  check_gemv("dgemv", o, t, m, n, a, lda, x, ix, y, iy, 8);
  f(o, t, m, n, al, a, lda, x, ix, be, y, iy);
}
void cblas_zgemv(int o, int t, I m, I n, const void *al, const void *a, I lda, const void *x, I ix, const void *be, void *y, I iy) {
  typedef void (*F)(int, int, I, I, const void *, const void *, I, const void *, I, const void *, void *, I);
  REAL(cblas_zgemv, F);
  check_gemv("zgemv", o, t, m, n, a, lda, x, ix, y, iy, 16);
  f(o, t, m, n, al, a, lda, x, ix, be, y, iy);
}
// ---- FFTW
struct Dim { int n, is, os; };
static std::set<void *> &plans() { static std::set<void *> *s = new std::set<void *>; return *s; }
static void *made(void *p) { if (active() && p) plans().insert(p); if (active() && !p) bad("fftw_plan", "plan", "no plan was made"); return p; }
static void transform(const char *fn, int rank, const int *n, void *in, void *out, int sign) {
  long t = 1;
  legal(fn, "rank", rank >= 0);
  need(fn, "n", n, rank * sizeof(int));
  for (int i = 0; i < rank; i++) { legal(fn, "n", n[i] > 0); t *= n[i]; }
  legal(fn, "sign", sign == 1 || sign == -1);
  need(fn, "in", in, t * 16); need(fn, "out", out, t * 16);
}
void *fftw_plan_dft_1d(int n, void *in, void *out, int sign, unsigned flags) {
  typedef void *(*F)(int, void *, void *, int, unsigned);
  REAL(fftw_plan_dft_1d, F);
  transform("fftw_plan_dft_1d", 1, &n, in, out, sign);
  return made(f(n, in, out, sign, flags));
}
void *fftw_plan_dft(int rank, const int *n, void *in, void *out, int sign, unsigned flags) {
  typedef void *(*F)(int, const int *, void *, void *, int, unsigned);
  REAL(fftw_plan_dft, F);
  transform("fftw_plan_dft", rank, n, in, out, sign);
  return made(f(rank, n, in, out, sign, flags));
}
void *fftw_plan_guru_dft(int rank, const Dim *d, int hr, const Dim *h, void *in, void *out, int sign, unsigned flags) {
  typedef void *(*F)(int, const Dim *, int, const Dim *, void *, void *, int, unsigned);
  REAL(fftw_plan_guru_dft, F);
  const char *fn = "fftw_plan_guru_dft";
  legal(fn, "rank", rank >= 0 && hr >= 0);
  need(fn, "dims", d, rank * sizeof(Dim)); need(fn, "howmany_dims", h, hr * sizeof(Dim));
  long a = 1, b = 1;
  bool empty = false;
  for (int i = 0; i < rank; i++) { legal(fn, "n", d[i].n > 0); a += (d[i].n - 1L) * std::labs((long)d[i].is); b += (d[i].n - 1L) * std::labs((long)d[i].os); }
  for (int i = 0; i < hr; i++) { legal(fn, "howmany", h[i].n >= 0); if (!h[i].n) empty = true; a += (h[i].n - 1L) * std::labs((long)h[i].is); b += (h[i].n - 1L) * std::labs((long)h[i].os); }
  if (!empty) { need(fn, "in", in, a * 16); need(fn, "out", out, b * 16); }
  return made(f(rank, d, hr, h, in, out, sign, flags));
}
void fftw_execute(void *p) {
  typedef void (*F)(void *);
  REAL(fftw_execute, F);
  legal("fftw_execute", "plan", plans().count(p) != 0);
  f(p);
}
void fftw_destroy_plan(void *p) {
  typedef void (*F)(void *);
  REAL(fftw_destroy_plan, F);
  legal("fftw_destroy_plan", "plan", !p || plans().count(p) != 0);
  plans().erase(p);
  f(p);
}
}
