// P26: random numbers.
#include "ref.h"
#include <random>
#include <set>
#include <tensor/rand.h>
using namespace ref;
typedef unsigned long ulong_;
// Seeding by several numbers is internal to the library: judged when it is there
namespace tensor { extern void init_by_array(uint64_t key[], int length) __attribute__((weak)); }
// Seeds whose draw of the given position lies within 2^-26 of 1 (found with std::mt19937_64).
static const struct { ulong_ seed; int at; } nearly_one[] = {
    {510265377ULL, 2}, {111450286ULL, 1}, {713118769ULL, 2}, {22466995ULL, 1}, {323243899ULL, 1}, {623955529ULL, 0}, {224345317ULL, 0}, {326503014ULL, 1},
    {328183740ULL, 0}, {631554211ULL, 2}, {536350163ULL, 0}, {635305530ULL, 1}, {236548697ULL, 2}, {138998913ULL, 0}, {240845163ULL, 0}, {750518358ULL, 2},
    {554642566ULL, 1}, {157364631ULL, 1}, {760881473ULL, 0}, {461590361ULL, 1}, {59189728ULL, 0}, {70054650ULL, 2}, {477738702ULL, 0}, {491293763ULL, 0}};
static const int n_nearly = sizeof nearly_one / sizeof *nearly_one;

static ulong_ any_seed(mon::Rng &r) {
  static const ulong_ s[] = {0, 1, 2, 5489, 19650218, 0x7fffffffUL, 0x80000000UL, 0xffffffffUL, 0x100000000UL, ~0UL, 1UL << 63};
  return r.chance(0.3) ? s[r.below(11)] : r.chance(0.5) ? r.next() : r.below(1000);
}
static double unit_of(ulong_ x) { return (x >> 11) * (1.0 / 9007199254740992.0); }

// The sequence of every unbounded type is the reference one
FAMILY(P26, sequence, 8000, 200000) {
  ulong_ seed = any_seed(c.r);
  long n = c.r.chance(0.1) ? 3000 : c.r.in(1, 700);
  mon::Rng ops(c.r.next());
  c.what << "seed " << seed << ", " << n << " draws";
  c.ready();
  c.saw_what();
  std::mt19937_64 ref(seed);
  for (long k = c.r.below(5); k-- > 0;) tensor::rand<double>();  // seeding forgets what was drawn before
  tensor::set_seed(seed);
  for (long k = 0; k < n; k++) {
    switch (ops.below(6)) {
    case 0: { ulong_ w = ref(), x = tensor::rand<unsigned long>(); CHECK_MSG(c, x == w, "unsigned long", "draw " << k << " is " << x << " expected " << w); break; }
    case 1: { long w = ref() >> 1, x = tensor::rand<long>(); CHECK_MSG(c, x == w, "long", "draw " << k << " is " << x << " expected " << w); break; }
    case 2: { double w = unit_of(ref()), x = tensor::rand<double>(); CHECK_MSG(c, x == w && x >= 0 && x < 1, "double", "draw " << k << " is " << x << " expected " << w); break; }
    case 3: { double a = unit_of(ref()), b = unit_of(ref()); cdouble x = tensor::rand<cdouble>(); CHECK_MSG(c, x == cdouble(a, b) || x == cdouble(b, a), "cdouble", "draw " << k << " is " << x); break; }
    case 4: { double w = unit_of(ref()); float x = tensor::rand<float>(); if (w < 0.9999999) CHECK_MSG(c, x == (float)w, "float", "draw " << k << " is " << x << " expected " << w); CHECK_MSG(c, x >= 0 && x < 1, "float:interval", x); if (w >= 0.9999999) return; break; }
    default: { ref(); tensor::rand<unsigned int>(); break; }
    }
  }
}
struct Draws { std::vector<double> v; };
static std::vector<double> draws(mon::Rng ops, long n) {
  std::vector<double> v;
  for (long k = 0; k < n; k++) switch (ops.below(14)) {
    case 0: v.push_back(tensor::rand<int>()); break;
    case 1: v.push_back(tensor::rand<unsigned int>()); break;
    case 2: v.push_back(tensor::rand<long>()); break;
    case 3: v.push_back(tensor::rand<unsigned long>()); break;
    case 4: v.push_back(tensor::rand<float>()); break;
    case 5: v.push_back(tensor::rand<double>()); break;
    case 6: { cdouble z = tensor::rand<cdouble>(); v.push_back(z.real()); v.push_back(z.imag()); break; }
    case 7: v.push_back(tensor::rand<int>((int)ops.in(1, 1000))); break;
    case 8: v.push_back(tensor::rand<double>(-1.0, 3.0)); break;
    case 9: v.push_back(tensor::rand<long>(-ops.in(1, 1000), 7)); break;
    case 10: { RTensor t = RTensor::random(ops.in(0, 4), ops.in(1, 4)); v.insert(v.end(), t.begin_const(), t.end_const()); break; }
    case 11: { CTensor t = CTensor::random(ops.in(1, 4)); for (long i = 0; i < t.size(); i++) { v.push_back(t[i].real()); v.push_back(t[i].imag()); } break; }
    case 12: { RSparse s = RSparse::random(3, 4, 0.5); RTensor t = full(s); v.insert(v.end(), t.begin_const(), t.end_const()); break; }
    default: { RTensor t(2, 3); t.randomize(); v.insert(v.end(), t.begin_const(), t.end_const()); break; }
  }
  return v;
}
// Equal seeds, equal numbers, whatever is drawn; different seeds, different numbers
FAMILY(P26, seeds, 10000, 200000) {
  ulong_ seed = any_seed(c.r), other = any_seed(c.r);
  long n = c.r.in(6, 120);
  mon::Rng ops(c.r.next());
  c.what << "seeds " << seed << " and " << other << ", " << n << " draws";
  c.ready();
  c.saw_what();
  tensor::set_seed(seed);
  std::vector<double> a = draws(ops, n);
  for (long k = c.r.below(700); k-- > 0;) tensor::rand<unsigned long>();
  tensor::set_seed(seed);
  std::vector<double> b = draws(ops, n);
  CHECK_MSG(c, a == b, "same seed", "gave other numbers");
  ulong_ u[3], v[3];
  tensor::set_seed(seed);
  for (int i = 0; i < 3; i++) u[i] = tensor::rand<unsigned long>();
  tensor::set_seed(other);
  for (int i = 0; i < 3; i++) v[i] = tensor::rand<unsigned long>();
  CHECK_MSG(c, (seed == other) == (memcmp(u, v, sizeof u) == 0), "other seed", "gave the same numbers");
}
FAMILY(P26, environment, 300, 8000) {
  int seed = c.r.chance(0.2) ? 0 : c.r.in(1, 2147483647);
  c.what << "RANDSEED=" << seed;
  c.ready();
  c.saw_what();
  setenv("RANDSEED", std::to_string(seed).c_str(), 1);
  tensor::rand_reseed();
  unsetenv("RANDSEED");
  ulong_ a[4], b[4];
  for (int i = 0; i < 4; i++) a[i] = tensor::rand<unsigned long>();
  tensor::set_seed(seed);
  for (int i = 0; i < 4; i++) b[i] = tensor::rand<unsigned long>();
  CHECK_MSG(c, memcmp(a, b, sizeof a) == 0, "RANDSEED", "does not seed with " << seed);
  // without it, every time something else
  tensor::rand_reseed();
  ulong_ x = tensor::rand<unsigned long>();
  tensor::rand_reseed();
  CHECK_MSG(c, x != tensor::rand<unsigned long>() || x != tensor::rand<unsigned long>(), "reseed", "gave the same number twice");
}
// Several numbers as seed, as in the reference implementation
FAMILY(P26, array, 400, 20000) {
  int n = c.r.chance(0.1) ? c.r.in(300, 700) : c.r.in(1, 8);
  std::vector<uint64_t> key(n);
  for (auto &x : key) x = c.r.chance(0.2) ? c.r.below(3) : c.r.next();
  if (c.r.chance(0.1)) key = {0x12345ULL, 0x23456ULL, 0x34567ULL, 0x45678ULL}, n = 4;
  c.what << n << " seeds " << key[0] << ' ' << key[n - 1];
  c.ready();
  c.saw_what();
  if (!tensor::init_by_array) return;
  uint64_t m[312];
  m[0] = 19650218ULL;
  for (uint64_t i = 1; i < 312; i++) m[i] = 6364136223846793005ULL * (m[i - 1] ^ (m[i - 1] >> 62)) + i;
  auto step = [&](uint64_t i, uint64_t f, uint64_t add) { m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> 62)) * f)) + add; if (i == 311) m[0] = m[311]; };
  uint64_t i = 1, rounds = std::max(312, n);
  for (uint64_t k = 0; k < rounds; k++, i = i == 311 ? 1 : i + 1) step(i, 3935559000370003845ULL, key[k % n] + k % n);
  for (uint64_t k = 0; k < 311; k++, i = i == 311 ? 1 : i + 1) step(i, 2862933555777941757ULL, -i);
  m[0] = 1ULL << 63;
  std::mt19937_64 ref;
  std::stringstream state;
  for (int k = 0; k < 312; k++) state << m[k] << ' ';
  state << 312;
  state >> ref;
  if (key.size() == 4 && key[0] == 0x12345ULL && key[3] == 0x45678ULL) { std::mt19937_64 copy = ref; CHECK_MSG(c, copy() == 7266447313870364031ULL, "array:reference", "the reference is wrong"); }
  tensor::init_by_array(&key[0], n);
  for (int k = 0; k < 700; k++) {
    ulong_ w = ref(), x = tensor::rand<unsigned long>();
    CHECK_MSG(c, x == w, "array", "draw " << k << " is " << x << " expected " << w);
  }
}
// Numbers drawn without bounds reach every part of the type
template <class T> static void whole_range(Case &c, const char *name) {
  ulong_ seed = c.r.next();
  c.what << name << " without bounds, seed " << seed;
  c.ready();
  c.saw_what();
  tensor::set_seed(seed);
  typedef typename std::make_unsigned<T>::type U;
  U ones = 0, zeros = 0;
  std::set<T> seen;
  for (int k = 0; k < 200; k++) { T x = tensor::rand<T>(); ones |= (U)x; zeros |= ~(U)x; seen.insert(x); }
  // long draws are not negative
  const U all = sizeof(T) == 8 && std::is_signed<T>::value ? (U)std::numeric_limits<T>::max() : (U)~(U)0;
  CHECK_MSG(c, (ones & all) == all && (zeros & all) == all, "range", name << ": bits never set " << (all & ~ones) << ", always set " << (all & ~zeros));
  CHECK_MSG(c, seen.size() > 195, "range:repeated", name << ": " << seen.size() << " of 200");
}
FAMILY(P26, range, 400, 20000) {
  switch (c.r.below(4)) {
  case 0: whole_range<int>(c, "int"); break;
  case 1: whole_range<unsigned int>(c, "unsigned int"); break;
  case 2: whole_range<long>(c, "long"); break;
  default: whole_range<unsigned long>(c, "unsigned long"); break;
  }
}
// Integers: inside the interval, and each of them occurs
template <class T> static void integer_interval(Case &c, const char *name) {
  mon::Rng &r = c.r;
  const T lo_lim = std::numeric_limits<T>::min(), hi_lim = std::numeric_limits<T>::max();
  bool one = r.chance(0.4);  // only the upper bound
  T lo = 0, hi = 0;
  int kind = r.below(6);
  switch (kind) {
  case 0: case 1: lo = (T)r.in(std::numeric_limits<T>::is_signed ? -30 : 0, 30); hi = lo + (T)r.in(0, 14); break;
  case 2: lo = hi_lim - (T)r.in(0, 20); hi = hi_lim - (T)r.in(0, 20); if (hi < lo) std::swap(lo, hi); break;
  case 3: lo = lo_lim + (T)r.in(0, 20); hi = lo + (T)r.in(0, 20); break;
  case 4: lo = lo_lim + (T)r.in(0, 3); hi = hi_lim - (T)r.in(0, 3); break;
  default: lo = (T)r.next(); hi = (T)r.next(); if (hi < lo) std::swap(lo, hi); break;
  }
  if (one) { lo = 0; if (hi < 0) hi = hi_lim; }
  tensor::set_seed(r.next());
  mon::u64 width = (mon::u64)hi - (mon::u64)lo;
  if (sizeof(T) < 8) width &= 0xffffffffULL;
  c.what << name << (one ? " below " : " in ") << lo << ".." << hi;
  c.ready();
  c.saw_what();
  bool small = width <= 16;
  std::set<T> seen;
  int quarters = 0;
  long n = small ? 60 * (width + 1) : 200;
  for (long k = 0; k < n; k++) {
    T x = one ? tensor::rand<T>(hi) : tensor::rand<T>(lo, hi);
    CHECK_MSG(c, width ? x >= lo && x < hi : x == lo, "integer:outside", name << " " << x << " in " << lo << ".." << hi);
    if (small) seen.insert(x);
    mon::u64 off = (mon::u64)x - (mon::u64)lo;
    if (sizeof(T) < 8) off &= 0xffffffffULL;
    if (width) quarters |= 1 << (int)std::min<long double>(3, off / (long double)width * 4);
  }
  if (small && width) CHECK_MSG(c, seen.size() == width, "integer:missing", name << ": " << seen.size() << " of " << width << " values in " << lo << ".." << hi);
  if (!small) CHECK_MSG(c, quarters == 15, "integer:quarter missing", name << " " << quarters << " in " << lo << ".." << hi);
}
FAMILY(P26, integers, 40000, 1000000) {
  switch (c.r.below(4)) {
  case 0: integer_interval<int>(c, "int"); break;
  case 1: integer_interval<long>(c, "long"); break;
  case 2: integer_interval<unsigned long>(c, "unsigned long"); break;
  default: integer_interval<unsigned int>(c, "unsigned int"); break;
  }
}
template <class T> static void real_interval(Case &c, const char *name, bool extreme) {
  mon::Rng &r = c.r;
  T lo = 0, hi;
  int kind = r.below(7);
  switch (kind) {
  case 0: lo = (T)r.normal(); hi = lo + (T)std::fabs(r.normal()); break;
  case 1: lo = (T)r.in(-10, 10); hi = lo + (T)r.in(1, 10); break;
  case 2: lo = (T)(r.normal() * 1e10); hi = lo + (T)std::fabs(lo) * std::numeric_limits<T>::epsilon() * (T)r.in(1, 50); break;  // few numbers inside
  case 3: { T s = (T)std::pow(10.0, r.in(-30, 30)); lo = -s; hi = s * (T)r.in(0, 3); break; }
  case 4: lo = hi = (T)(r.normal() * 100); break;
  case 5: lo = (T)r.normal(); hi = std::nextafter(lo, (T)1e30); break;
  default: lo = 0; hi = (T)r.in(1, 100); break;
  }
  bool one = lo == 0 ? r.chance(0.7) : false;
  if (!one && kind == 6 && r.chance(0.5)) { one = true; hi = (T)std::fabs(r.normal() * 1000); if (hi == 0) hi = 1; }
  int which = r.below(n_nearly);
  ulong_ seed = extreme ? nearly_one[which].seed : r.next();
  int skip = extreme ? nearly_one[which].at : 0;
  c.what << name << (one ? " below " : " in ") << lo << ".." << hi << (extreme ? " draw next to 1, seed " : " seed ") << seed;
  c.ready();
  c.saw_what();
  tensor::set_seed(seed);
  for (int k = 0; k < skip; k++) tensor::rand<unsigned long>();
  int quarters = 0;
  for (int k = 0; k < (extreme ? 1 : 60); k++) {
    T x = one ? tensor::rand<T>(hi) : tensor::rand<T>(lo, hi);
    CHECK_MSG(c, lo == hi ? x == lo : x >= lo && x < hi, "real:outside", name << " " << x << " in " << lo << ".." << hi);
    if (lo < hi) quarters |= 1 << (int)std::min<long double>(3, ((long double)x - lo) / ((long double)hi - lo) * 4);
  }
  if (!extreme && lo < hi && (kind == 0 || kind == 1 || kind == 3 || kind == 6))
    CHECK_MSG(c, (quarters & 9) == 9, "real:quarter missing", name << " " << quarters << " in " << lo << ".." << hi);
}
FAMILY(P26, reals, 50000, 1000000) {
  bool extreme = c.r.chance(0.3);
  if (c.r.chance(0.5)) real_interval<double>(c, "double", extreme); else real_interval<float>(c, "float", extreme);
}
FAMILY(P26, unit, 300, 10000) {
  int which = c.r.below(n_nearly);
  c.what << "unbounded draw next to 1, seed " << nearly_one[which].seed;
  c.ready();
  c.saw_what();
  int kind = c.r.below(3);
  tensor::set_seed(nearly_one[which].seed);
  for (int k = 0; k < nearly_one[which].at; k++) tensor::rand<unsigned long>();
  if (kind == 0) { float x = tensor::rand<float>(); CHECK_MSG(c, x >= 0 && x < 1, "unit:float", x); }
  else if (kind == 1) { double x = tensor::rand<double>(); CHECK_MSG(c, x >= 0 && x < 1, "unit:double", x); }
  else { cdouble z = tensor::rand<cdouble>(); CHECK_MSG(c, z.real() >= 0 && z.real() < 1 && z.imag() >= 0 && z.imag() < 1, "unit:cdouble", z); }
}
template <class E> static bool in_unit(const E &x) { cdouble z(x); return z.real() >= 0 && z.real() < 1 && z.imag() >= 0 && z.imag() < 1; }
// Random tensors of every rank: the dimensions asked for, every number inside, different from each other
template <class E> static void random_tensor(Case &c) {
  int rank = c.r.in(1, 6);
  Dims d = random_dims(c.r, rank, 0.05, 500);
  c.what << "random tensor " << str(d);
  c.ready();
  c.saw_what();
  tensor::set_seed(c.r.next());
  typedef tensor::Tensor<E> T;
  T t;
  if (c.r.chance(0.3)) t = T::random(to_indices(d));
  else switch (rank) {
    case 1: t = T::random(d[0]); break;
    case 2: t = T::random(d[0], d[1]); break;
    case 3: t = T::random(d[0], d[1], d[2]); break;
    case 4: t = T::random(d[0], d[1], d[2], d[3]); break;
    case 5: t = T::random(d[0], d[1], d[2], d[3], d[4]); break;
    default: t = T::random(d[0], d[1], d[2], d[3], d[4], d[5]); break;
  }
  Arr<E> a = from_tensor(t);
  CHECK_MSG(c, a.d == d, "tensor:dims", str(a.d) << " expected " << str(d));
  T copy = t;
  T u = t;
  u.randomize();
  expect_same(c, copy, a, "tensor:copy changed");
  Arr<E> b = from_tensor(u);
  CHECK_MSG(c, b.d == d, "tensor:dims", str(b.d) << " expected " << str(d));
  std::set<std::pair<double, double> > seen;
  for (long i = 0; i < a.size(); i++) {
    CHECK_MSG(c, in_unit(a.v[i]) && in_unit(b.v[i]), "tensor:outside", a.v[i] << " " << b.v[i]);
    cdouble x(a.v[i]), y(b.v[i]);
    CHECK_MSG(c, seen.insert(std::make_pair(x.real(), x.imag())).second && seen.insert(std::make_pair(y.real(), y.imag())).second, "tensor:repeated", x);
  }
}
FAMILY(P26, tensors, 20000, 400000) { if (c.r.chance(0.5)) random_tensor<double>(c); else random_tensor<cdouble>(c); }
MON_MAIN
