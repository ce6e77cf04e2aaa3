// P20: Fourier transforms and frequency shifts.
#include "ref.h"
#include <tensor/fftw.h>
using namespace ref;

static Dims fft_dims(Case &c, int lo = 1, int hi = 5) {
  int rank = any_rank(c.r, lo, hi);
  if (rank > 7) return random_dims(c.r, rank, 0.06, 700);
  long most = c.r.chance(0.1) ? 3000 : 400;
  bool large = c.r.chance(0.003);
  if (large) most = 40000;
  for (;;) {
    Dims d(rank);
    for (int i = 0; i < rank; i++) {
      double u = c.r.unit();
      d[i] = u < 0.02 ? 0 : u < 0.2 ? 1 : u < 0.7 ? c.r.in(2, 5) : u < 0.95 || rank > 2 ? c.r.in(6, 13) : c.r.in(14, 300);
    }
    if (large && rank > 0) { d[c.r.below(rank)] = c.r.in(60, 400); if (rank > 1) d[c.r.below(rank)] = c.r.in(60, 200); }
    if (total(d) <= most) return d;
  }
}
// transform along one index of reference values
static VA dft(const VA &a, int k, int sign) {
  long n = a.d[k], before = 1, after = 1;
  for (int i = 0; i < k; i++) before *= a.d[i];
  for (int i = k + 1; i < a.rank(); i++) after *= a.d[i];
  const long double PI = std::acos((long double)-1);
  std::vector<cld> w(n);
  for (long j = 0; j < n; j++) w[j] = std::polar((long double)1, sign * 2 * PI * j / n);
  VA o(a.d);
  for (long z = 0; z < after; z++)
    for (long f = 0; f < n; f++)
      for (long x = 0; x < before; x++) {
        Val s;
        for (long j = 0; j < n; j++) {
          const Val &in = a.v[(z * n + j) * before + x];
          s.v += in.v * w[(j * f) % n];
          s.m += in.m;
          s.terms += in.terms;
        }
        o.v[(z * n + f) * before + x] = s;
      }
  return o;
}
static VA vals(const CA &a) {
  VA o(a.d);
  for (long i = 0; i < a.size(); i++) o.v[i].add(ld(a.v[i]));
  return o;
}
static tensor::Booleans bools(const std::vector<bool> &s) {
  tensor::Booleans b(s.size());
  for (size_t i = 0; i < s.size(); i++) b.at(i) = s[i];
  return b;
}
// which: 0 all, 1 one index, 2 subset
static CTensor call(const CTensor &t, int which, long one, const tensor::Booleans &sel, int dir) {
  return which == 0 ? tensor::fftw(t, dir) : which == 1 ? tensor::fftw(t, one, dir) : tensor::fftw(t, sel, dir);
}
static void call_inplace(CTensor &t, int which, long one, const tensor::Booleans &sel, int dir) {
  if (which == 0) tensor::fftw_inplace(t, dir);
  else if (which == 1) tensor::fftw_inplace(t, one, dir);
  else tensor::fftw_inplace(t, sel, dir);
}
static void choose(Case &c, int which, int rank, long &one, std::vector<bool> &sel) {
  one = c.r.below(rank);
  sel.assign(rank, which == 0);
  if (which == 1) sel[one] = true;
  if (which == 2) for (int i = 0; i < rank; i++) sel[i] = c.r.chance(0.5);
}
static CA special_input(Case &c, const Dims &d) {
  CA a = random_arr<cdouble>(c.r, d, c.r.chance(0.5) ? INTS : REALS);
  int kind = c.r.below(5);
  if (kind == 0 && a.size()) {  // one point only: its transform has constant modulus
    std::fill(a.v.begin(), a.v.end(), cdouble(0));
    a.v[c.r.below(a.size())] = cdouble(1, 0.5);
  }
  if (kind == 1) for (long i = 0; i < a.size(); i++) a.v[i] = a.v[i].real();
  if (kind == 2) { double s = std::pow(10.0, c.r.in(-100, 100)); for (long i = 0; i < a.size(); i++) a.v[i] *= s; }
  return a;
}
FAMILY(P20, transform, 40000, 2000000) {
  Dims d = fft_dims(c);
  int which = c.r.below(3), dir = c.r.chance(0.5) ? tensor::FFTW_FORWARD : tensor::FFTW_BACKWARD;
  long one;
  std::vector<bool> sel;
  choose(c, which, d.size(), one, sel);
  CA a = special_input(c, d);
  c.what << "fftw " << str(d) << " over " << show(sel) << " form " << which << " direction " << dir;
  c.ready();
  c.saw_what();
  VA want = vals(a), back;
  for (size_t k = 0; k < d.size(); k++) if (sel[k]) want = dft(want, k, dir < 0 ? -1 : 1);
  CTensor t = to_tensor(a), other = t;
  tensor::Booleans b = bools(sel);
  CTensor o = call(t, which, one, b, dir);
  expect_val(c, o, want, "fftw");
  unchanged(c, t, a, "fftw");
  CTensor p = t;
  call_inplace(p, which, one, b, dir);
  expect_val(c, p, want, "fftw_inplace");
  unchanged(c, t, a, "fftw_inplace: a copy");
  unchanged(c, other, a, "fftw_inplace: a copy");
  // in place on the only handle
  CTensor q = to_tensor(a);
  call_inplace(q, which, one, b, dir);
  expect_val(c, q, want, "fftw_inplace sole");
  // back and forth
  long n = 1;
  for (size_t k = 0; k < d.size(); k++) if (sel[k]) n *= d[k];
  back = want;
  for (long i = 0; i < a.size(); i++) { back.v[i].v = ld(a.v[i]) * cld(n); back.v[i].m = 0; }
  double m = 0;
  for (long i = 0; i < a.size(); i++) m = std::max(m, (double)want.v[i].m);
  for (long i = 0; i < a.size(); i++) { back.v[i].m = m * n; back.v[i].terms = 2 * n; }
  // sum |x| over the points bounds every coefficient; there are n of them
  CTensor r = call(o, which, one, b, -dir);
  expect_val(c, r, back, "fftw back");
  call_inplace(p, which, one, b, -dir);
  expect_val(c, p, back, "fftw_inplace back");
}
// frequencies from minimum to maximum: for n points the zero frequency goes to position n/2
static CA shifted(const CA &a, const std::vector<bool> &sel, int dir) {
  CA o(a.d);
  for (long p = 0; p < a.size(); p++) {
    Dims i = unpos(a.d, p);
    for (int k = 0; k < a.rank(); k++) if (sel[k]) {
      long n = a.d[k], h = n / 2;
      i[k] = (i[k] + (dir < 0 ? h : n - h)) % n;
    }
    o.at(i) = a.v[p];
  }
  return o;
}
static CTensor call_shift(const CTensor &t, int which, long one, const tensor::Booleans &sel, int dir) {
  return which == 0 ? tensor::fftshift(t, dir) : which == 1 ? tensor::fftshift(t, one, dir) : tensor::fftshift(t, sel, dir);
}
FAMILY(P20, shift, 40000, 2000000) {
  Dims d = fft_dims(c);
  int which = c.r.below(3), dir = c.r.chance(0.5) ? tensor::FFTW_FORWARD : tensor::FFTW_BACKWARD;
  long one;
  std::vector<bool> sel;
  choose(c, which, d.size(), one, sel);
  CA a = distinct_arr<cdouble>(c.r, d);
  c.what << "fftshift " << str(d) << " over " << show(sel) << " form " << which << " direction " << dir;
  c.ready();
  c.saw_what();
  CTensor t = to_tensor(a);
  tensor::Booleans b = bools(sel);
  CTensor o = call_shift(t, which, one, b, dir);
  expect_same(c, o, shifted(a, sel, dir), "fftshift");
  unchanged(c, t, a, "fftshift");
  expect_same(c, call_shift(o, which, one, b, -dir), a, "fftshift undone");
}
// A plane wave of frequency f lands on position f - min after the shift.
FAMILY(P20, wave, 10000, 400000) {
  long n = c.r.chance(0.8) ? c.r.in(1, 40) : c.r.in(41, 500);
  long lo = -(n / 2), f = c.r.in(lo, lo + n - 1);
  c.what << "wave of frequency " << f << " of " << n;
  c.ready();
  c.saw_what();
  const long double PI = std::acos((long double)-1);
  CA a(Dims{n}), want(Dims{n});
  for (long j = 0; j < n; j++) a.v[j] = cdouble(std::polar((long double)1, 2 * PI * (((f % n + n) * j) % n) / n));
  CTensor o = tensor::fftshift(tensor::fftw(to_tensor(a), tensor::FFTW_FORWARD), tensor::FFTW_FORWARD);
  CA g = from_tensor(o);
  CHECK_MSG(c, g.d == a.d, "wave:dims", str(g.d));
  for (long i = 0; i < n; i++)
    CHECK_MSG(c, std::abs(g.v[i] - (i == f - lo ? cdouble(n) : cdouble(0))) <= 40 * n * EPS, "wave", "position " << i << " holds " << g.v[i]);
}
// One index much longer than elsewhere. The input has few points, so that the sum is short.
FAMILY(P20, lengthy, 500, 15000) {
  int rank = c.r.in(1, 3), long_one = c.r.below(rank);
  Dims d(rank);
  for (int i = 0; i < rank; i++) d[i] = c.r.in(1, 3);
  d[long_one] = (long)std::exp(c.r.real(std::log(300.0), std::log(c.r.chance(0.15) ? 140000.0 : 9000.0)));
  if (c.r.chance(0.3)) { long p = 256; while (2 * p <= d[long_one]) p *= 2; d[long_one] = p + c.r.in(-1, 1); }
  long n = d[long_one], before = 1, after = 1;
  for (int i = 0; i < long_one; i++) before *= d[i];
  for (int i = long_one + 1; i < rank; i++) after *= d[i];
  int which = c.r.below(3), dir = c.r.chance(0.5) ? tensor::FFTW_FORWARD : tensor::FFTW_BACKWARD;
  long one;
  std::vector<bool> sel;
  choose(c, which, rank, one, sel);
  if (which == 1) { sel[one] = false; sel[one = long_one] = true; }
  if (which == 2) sel[long_one] = true;
  c.what << "lengthy fftw " << str(d) << " over " << show(sel) << " form " << which << " direction " << dir;
  c.ready();
  c.saw_what();
  const long double PI = std::acos((long double)-1);
  std::vector<cld> w(n);
  for (long j = 0; j < n; j++) w[j] = std::polar((long double)1, (dir < 0 ? -1 : 1) * 2 * PI * j / n);
  CA a(d);
  VA want(d);
  std::vector<long> ps{0, n - 1, c.r.below(n), c.r.below(n), c.r.below(n)};
  std::sort(ps.begin(), ps.end());
  ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
  for (long z = 0; z < after; z++) for (long x = 0; x < before; x++)
    for (size_t k = 0; k < ps.size(); k++) {
      cdouble v(c.r.real(-2, 2), c.r.real(-2, 2));
      a.v[(z * n + ps[k]) * before + x] = v;
      for (long f = 0; f < n; f++) {
        Val &o = want.v[(z * n + f) * before + x];
        o.v += ld(v) * w[(ps[k] * f) % n];
        o.m += std::abs(v);
        o.terms = n;
      }
    }
  for (int k = 0; k < rank; k++) if (k != long_one && sel[k]) want = dft(want, k, dir < 0 ? -1 : 1);
  CTensor t = to_tensor(a);
  tensor::Booleans b = bools(sel);
  // rounding grows with the logarithm of the length only
  for (long i = 0; i < want.size(); i++) want.v[i].terms = 64 * rank;
  CTensor o = call(t, which, one, b, dir);
  expect_val(c, o, want, "fftw long");
  unchanged(c, t, a, "fftw long");
  CTensor q = t;
  call_inplace(q, which, one, b, dir);
  expect_val(c, q, want, "fftw_inplace long");
  unchanged(c, t, a, "fftw_inplace long: a copy");
  CA e = distinct_arr<cdouble>(c.r, d);
  CTensor s = to_tensor(e), sh = call_shift(s, which, one, b, dir);
  expect_same(c, sh, shifted(e, sel, dir), "fftshift long");
  expect_same(c, call_shift(sh, which, one, b, -dir), e, "fftshift long undone");
}
MON_MAIN
