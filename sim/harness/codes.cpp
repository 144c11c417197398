// Numbers carried as template arguments (binary, quotient and power codes) and the counting helpers:
// exact for every value, at compile time, at run time, on every thread and in every rounding direction.
#include "common.hpp"
#include <HeuristicFlow/Global>
#include <cfenv>
#include <cstring>
#include <utility>

namespace hx {
namespace {
constexpr uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
// representative bit patterns: exponents and mantissas at and around their ends
template <class U, int mBits, int eBits>
constexpr U pattern(uint64_t r) {
  const U mMax = (U(1) << mBits) - 1, eMax = (U(1) << eBits) - 1, bias = eMax / 2;
  U m = U(mix(r + 1)) & mMax, e = U(mix(r + 2)) % (eMax + 1);
  switch (mix(r + 3) % 8) {
    case 0: m = mMax; break;
    case 1: m = 0; break;
    case 2: m = 1; break;
    case 3: m = mMax - 1; break;
    case 4: m = mMax & ~(mMax >> (mix(r + 4) % mBits)); break;
    default: break;
  }
  switch (mix(r + 5) % 10) {
    case 0: e = 0; break;
    case 1: e = eMax - 1; break;
    case 2: e = 1; break;
    case 3: e = bias - 2 + U(mix(r + 6) % 5); break;
    case 4: e = eMax; break;
    case 5: e = bias - 12 + U(mix(r + 6) % 25); break;
    default: break;
  }
  if (e == eMax && mix(r + 7) % 2) m = 0;  // infinity rather than not-a-number
  return (U(mix(r + 8) & 1) << (mBits + eBits)) | (e << mBits) | m;
}
template <class F>
struct Ieee;
template <>
struct Ieee<double> {
  using U = uint64_t;
  using Code = heu::binCode64;
  static constexpr int m = 52, e = 11;
  static constexpr const char* name = "double";
};
template <>
struct Ieee<float> {
  using U = uint32_t;
  using Code = heu::binCode32;
  static constexpr int m = 23, e = 8;
  static constexpr const char* name = "float";
};
template <class F>
F real(typename Ieee<F>::U u) {
  F f;
  std::memcpy(&f, &u, sizeof f);
  return f;
}
template <class F>
struct Row {
  typename Ieee<F>::U bits = 0, code = 0;
  F value = 0;
};
template <class F>
struct Table {
  static constexpr int n = 160;
  Row<F> r[n];
};
template <class F>
constexpr Table<F> atCompileTime() {
  using I = Ieee<F>;
  Table<F> t{};
  for (int i = 0; i < Table<F>::n; i++) {
    typename I::U u = pattern<typename I::U, I::m, I::e>(uint64_t(i) * 977 + 5);
    const typename I::U absu = u & ~(typename I::U(1) << (I::m + I::e)), inf = ((typename I::U(1) << I::e) - 1) << I::m;
    if (absu > inf) u = inf;
    t.r[i].bits = u;
    t.r[i].value = heu::decode(typename I::Code(u));
    t.r[i].code = typename I::U(heu::encode(t.r[i].value));
  }
  return t;
}
constexpr Table<double> tableD = atCompileTime<double>();
constexpr Table<float> tableF = atCompileTime<float>();

template <class F>
bool judge(const char* when, typename Ieee<F>::U bits, F decoded, typename Ieee<F>::U code, F again) {
  const F x = real<F>(bits);
  if (std::isnan(x)) {
    if (std::isnan(decoded) && std::isnan(real<F>(code)) && std::isnan(again)) return true;
    fail("C23:codes", "%s %s: not-a-number %llx is decoded to %g, encoded to %llx and decoded again to %g", Ieee<F>::name, when, (unsigned long long)bits, double(decoded),
         (unsigned long long)code, double(again));
    return false;
  }
  // the two zeros are equal numbers and may stand for one another
  const bool ok = (decoded == x && again == x) && (real<F>(code) == x);
  if (!ok)
    fail("C23:codes", "%s %s: %a (code %llx) is decoded to %a, encoded to %llx and decoded again to %a", Ieee<F>::name, when, double(x), (unsigned long long)bits, double(decoded),
         (unsigned long long)code, double(again));
  return ok;
}
template <class F>
bool tableHolds(const Table<F>& t) {
  for (auto& r : t.r)
    if (!judge<F>("at compile time", r.bits, r.value, r.code, r.value)) return false;
  return true;
}
const int kModes[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
const char* kModeNames[] = {"rounding to nearest", "rounding down", "rounding up", "rounding to zero"};

template <class F>
void converts(Rng& rng) {
  using I = Ieee<F>;
  using U = typename I::U;
  const int n = param("count", 1, 60, 12), mode = param("rounding", 0, 3, 0);
  const int team = param("team", 1, 4, 1), chunk = param("chunk", 1, 5, 1);
  std::vector<U> bits(size_t(n), 0), code(bits);
  std::vector<F> dec(size_t(n), F(0)), again(dec);
  for (auto& b : bits) {
    const uint64_t r = rng.next();
    b = r % 3 ? pattern<U, I::m, I::e>(r) : U(mix(r));
  }
  phase("encode and decode");
  sut([&] {
#pragma omp parallel for schedule(dynamic, chunk) num_threads(team)
    for (int i = 0; i < n; i++) {
      const size_t k = size_t(i);
      const int was = std::fegetround();
      std::fesetround(kModes[mode]);
      preempt_point();
      dec[k] = heu::decode(typename I::Code(bits[k]));
      F x;
      std::memcpy(&x, &bits[k], sizeof x);
      const auto c = heu::encode(x);
      code[k] = U(c);
      again[k] = heu::decode(c);
      std::fesetround(was);
    }
  });
  uint64_t h = 7;
  for (int i = 0; i < n; i++) {
    const size_t k = size_t(i);
    if (!judge<F>(kModeNames[mode], bits[k], dec[k], code[k], again[k])) return;
    h = hcomb(h, code[k]);
    const F x = real<F>(bits[k]);
    if (std::isinf(x)) probe("infinities converted");
    else if (std::fpclassify(x) == FP_SUBNORMAL) probe("denormal numbers converted");
    else if (x == x) probe("numbers converted");
  }
  if (mode) probe("conversions in another rounding direction");
  hist("codes", h);
}

// ------------------------------------------------------------------ quotient and power codes
template <uint64_t I>
struct Quotient {
  static constexpr int32_t a = int32_t(uint32_t(mix(I * 31 + 1)) >> (mix(I + 9) % 31));
  static constexpr int32_t num = mix(I + 4) % 2 ? a : -a;
  static constexpr uint32_t den = (uint32_t(mix(I * 17 + 3)) >> (mix(I + 5) % 31)) | 1;
  static constexpr heu::DivCode code = heu::DivEncode<num, den>::code;
};
template <uint64_t I>
struct Power {
  static constexpr int64_t limit(int digits) {
    int64_t v = 1;
    for (int i = 0; i < digits; i++) v *= 10;
    return v;
  }
  static constexpr int digits = 1 + int(mix(I + 70) % 16);
  static constexpr int64_t lo = limit(digits - 1), hi = limit(digits);
  static constexpr int64_t a = mix(I + 3) % 9 == 0 ? hi - 1 : lo + int64_t(mix(I * 7 + 1) % uint64_t(hi - lo));
  static constexpr int64_t sig = mix(I + 4) % 2 ? a : -a;
  static constexpr int16_t pow = int16_t(mix(I + 5) % 3 ? int(mix(I + 6) % 511) - 255 : int(mix(I + 6) % 31) - 15);
  static constexpr heu::PowCode code = heu::PowEncode<sig, pow>::code;
};
template <uint64_t I>
bool quotientHolds() {
  using Q = Quotient<I>;
  using D = heu::DivDecode<Q::code>;
  volatile double got = D::real;
  const double want = double(Q::num) / double(Q::den);
  if (D::numerator == Q::num && D::denominator == Q::den && std::fabs(got - want) <= 1e-15 * std::fabs(want)) return true;
  fail("C23:codes", "the quotient code of %d/%u is decoded to %d/%u = %.17g", int(Q::num), unsigned(Q::den), int(D::numerator), unsigned(D::denominator), double(got));
  return false;
}
template <uint64_t I>
bool powerHolds() {
  using Q = Power<I>;
  volatile double got = heu::PowDecode<Q::code>::real;
  long double want = (long double)(Q::sig);
  want *= powl(10.0L, Q::pow - (Q::digits - 1));
  if (fabsl((long double)(got)-want) <= 2e-13L * fabsl(want)) return true;
  fail("C23:codes", "the power code of %lld with power %d is decoded to %.17g instead of %.17Lg", (long long)Q::sig, int(Q::pow), double(got), want);
  return false;
}
template <uint64_t... I>
bool allQuotients(std::integer_sequence<uint64_t, I...>) {
  return (quotientHolds<I>() && ...);
}
template <uint64_t... I>
bool allPowers(std::integer_sequence<uint64_t, I...>) {
  return (powerHolds<I>() && ...);
}
template <heu::DivCode c>
void constant(const char* name, double want) {
  volatile double got = heu::DivDecode<c>::real;
  if (std::fabs(got - want) > 1e-15 * want) fail("C23:codes", "%s stands for %.17g instead of %.17g", name, double(got), want);
}
void fixedCodes() {
  tableHolds(tableD) && tableHolds(tableF) && allQuotients(std::make_integer_sequence<uint64_t, 96>()) && allPowers(std::make_integer_sequence<uint64_t, 96>());
  const double pi = 3.14159265358979323846;
  constant<heu::DivCode_Half>("DivCode_Half", 0.5);
  constant<heu::DivCode_Pi>("DivCode_Pi", pi);
  constant<heu::DivCode_Pi_mul_2>("DivCode_Pi_mul_2", 2 * pi);
  constant<heu::DivCode_Pi_mul_3>("DivCode_Pi_mul_3", 3 * pi);
  constant<heu::DivCode_Pi_mul_4>("DivCode_Pi_mul_4", 4 * pi);
  constant<heu::DivCode_Pi_mul_6>("DivCode_Pi_mul_6", 6 * pi);
  constant<heu::DivCode_Pi_div_2>("DivCode_Pi_div_2", pi / 2);
  constant<heu::DivCode_Pi_div_3>("DivCode_Pi_div_3", pi / 3);
  constant<heu::DivCode_Pi_div_4>("DivCode_Pi_div_4", pi / 4);
  constant<heu::DivCode_Pi_div_6>("DivCode_Pi_div_6", pi / 6);
  constant<heu::DivCode_Sqrt2>("DivCode_Sqrt2", std::sqrt(2.0));
  constant<heu::DivCode_one_div_Sqrt2>("DivCode_one_div_Sqrt2", std::sqrt(0.5));
  constant<heu::DivCode_E>("DivCode_E", 2.71828182845904523536);
  if (heu::PowDecode<heu::PowEncode<0, 7>::code>::real != 0) fail("C23:codes", "the power code of zero is not decoded to zero");
  if (!(heu::PowEncode<1919810, -20>::code == heu::PowEncode<191981, -20>::code)) fail("C23:codes", "trailing zeros of the coefficient change the power code");
}

// ------------------------------------------------------------------ counting and ordering
template <class T>
void counts(Rng& rng, const char* type) {
  const T N = T(rng.below(4) ? rng.below(26) : rng.below(68)), K = T(rng.below(uint64_t(N) + 1));
  unsigned __int128 c = 1;
  for (uint64_t i = 1; i <= uint64_t(K); i++) {
    c = c * (uint64_t(N) - uint64_t(K) + i) / i;
    if (c > (unsigned __int128)(1) << 100) return;
  }
  const double top = std::is_floating_point_v<T> ? 9e15 : double(std::numeric_limits<T>::max()) / 4;
  if (double(c) * double(N + 1) > top) return;
  T got = 0, swapped = 0, f = 1;
  const int m = int(rng.below(21));
  double want = 1;
  for (int i = 2; i <= m; i++) want *= i;
  const bool fits = want < top;
  sut([&] {
    got = heu::NchooseK<T>(N, K);
    swapped = heu::NchooseK<T>(N, T(N - K));
    if (fits) f = heu::fractorial<T>(T(m));
  });
  if (got != T(c) || swapped != T(c))
    fail("C23:counts", "NchooseK<%s>(%g, %g) is %.17g, and %.17g for its complement, instead of %.17g", type, double(N), double(K), double(got), double(swapped), double(c));
  if (fits && double(f) != want) fail("C23:counts", "fractorial<%s>(%d) is %.17g", type, m, double(f));
  hist("count", uint64_t(c));
  probe(N > 20 ? "binomials of more than 20" : "binomials");
}
template <class T>
void orders(Rng& rng, const char* type) {
  T v[5];
  for (auto& x : v) {
    const int64_t k = int64_t(rng.below(9)) - (std::is_signed_v<T> ? 4 : 0);
    x = std::is_floating_point_v<T> ? T(double(k) + (rng.below(2) ? rng.unit() : 0)) : T(k);
    if (!rng.below(20)) x = std::numeric_limits<T>::max();
    if (!rng.below(20)) x = std::numeric_limits<T>::lowest();
  }
  T lo[4], hi[4], sg = 0, sq = 0;
  const T small = T(rng.below(11));
  sut([&] {
    lo[0] = heu::min(v[0], v[1]), hi[0] = heu::max(v[0], v[1]);
    lo[1] = heu::min(v[0], v[1], v[2]), hi[1] = heu::max(v[0], v[1], v[2]);
    lo[2] = heu::min(v[0], v[1], v[2], v[3]), hi[2] = heu::max(v[0], v[1], v[2], v[3]);
    lo[3] = heu::min(v[0], v[1], v[2], v[3], v[4]), hi[3] = heu::max(v[0], v[1], v[2], v[3], v[4]);
    sg = heu::sign(v[0]);
    sq = heu::square(small);
  });
  for (int k = 0; k < 4; k++)
    if (lo[k] != *std::min_element(v, v + k + 2) || hi[k] != *std::max_element(v, v + k + 2))
      return fail("C23:counts", "the least and greatest of %d values (%s) are %g and %g", k + 2, type, double(lo[k]), double(hi[k]));
  if (sg != T(v[0] > 0 ? 1 : v[0] < 0 ? -1 : 0)) return fail("C23:counts", "sign<%s>(%g) is %g", type, double(v[0]), double(sg));
  if (sq != T(small * small)) return fail("C23:counts", "square<%s>(%g) is %g", type, double(small), double(sq));
  hist("order", uint64_t(int64_t(double(lo[3]) / 4) * 31 + int64_t(sg)));
}
void fixedOrders() {
  
  const bool ok = heu::min_v<int, 3> == 3 && heu::max_v<int, 3> == 3 && heu::min_v<int, 4, -2, 7> == -2 && heu::max_v<int, 4, -2, 7> == 7 && heu::min_v<int, -5, 8> == -5 && heu::max_v<int, 8, -5> == 8 &&
                  heu::min_v<unsigned, 9u, 3u, 3u, 12u, 5u> == 3u && heu::max_v<unsigned, 9u, 3u, 12u, 5u, 12u> == 12u;
  if (!ok) fail("C23:counts", "min_v or max_v of constants");
}
}  // namespace
static void codes_numbers() {
  Rng rng(hcomb(case_seed(), 0xC0DE));
  fixedCodes();
  if (failures()) return;
  if (param("float", 0, 1, 0)) converts<float>(rng);
  else converts<double>(rng);
}
static void namesAndCurve(Rng& rng) {
  using namespace heu;
  const std::pair<SelectMethod, const char*> methods[] = {{RouletteWheel, "RouletteWheel"}, {Tournament, "Tournament"}, {Truncation, "Truncation"},
      {MonteCarlo, "MonteCarlo"}, {Probability, "Probability"}, {LinearRank, "LinearRank"}, {ExponentialRank, "ExponentialRank"}, {Boltzmann, "Boltzmann"},
      {StochasticUniversal, "StochasticUniversal"}, {EliteReserved, "EliteReserved"}, {RunTimeSelectMethod, "RunTimeSelectMethod"}};
  const double mu = (rng.unit() - 0.5) * 20, sigma = std::ldexp(1 + rng.unit(), int(rng.below(12)) - 6), x = mu + (rng.unit() - 0.5) * 12 * sigma;
  double y = 0, z = 0, st = 0;
  const char *n[11], *r[2], *f[2];
  sut([&] {
    for (int i = 0; i < 11; i++) n[i] = Enum2String(methods[i].first);
    r[0] = Enum2String(RECORD_FITNESS), r[1] = Enum2String(DONT_RECORD_FITNESS);
    f[0] = Enum2String(FITNESS_LESS_BETTER), f[1] = Enum2String(FITNESS_GREATER_BETTER);
    y = gaussianCurve<double>(x, mu, sigma), z = gaussianCurve<double>(2 * mu - x, mu, sigma), st = gaussianCurve<double>((x - mu) / sigma);
  });
  for (int i = 0; i < 11; i++)
    if (strcmp(n[i], methods[i].second)) fail("C23:counts", "the selection method %s is called %s", methods[i].second, n[i]);
  if (strcmp(r[0], "RECORD_FITNESS") || strcmp(r[1], "DONT_RECORD_FITNESS") || strcmp(f[0], "FITNESS_LESS_BETTER") || strcmp(f[1], "FITNESS_GREATER_BETTER"))
    fail("C23:counts", "the record options are called %s and %s, the fitness options %s and %s", r[0], r[1], f[0], f[1]);
  const double t = (x - mu) / sigma, want = std::exp(-t * t / 2) / (sigma * 2.5066282746310002);
  if (std::fabs(y - want) > 1e-10 * want || std::fabs(z - want) > 1e-10 * want || std::fabs(st - want * sigma) > 1e-10 * want * sigma)
    fail("C23:counts", "gaussianCurve(%g, %g, %g) is %.17g (mirrored %.17g, standard %.17g) instead of %.17g", x, mu, sigma, y, z, st, want);
  hist("curve", uint64_t(want * 1e6));
}
static void codes_counts() {
  Rng rng(hcomb(case_seed(), 0xC0DF));
  phase("counting");
  fixedOrders();
  namesAndCurve(rng);
  const int rounds = param("rounds", 1, 12, 3);
  for (int i = 0; i < rounds && !failures(); i++) {
    switch (rng.below(6)) {
      case 0: counts<int>(rng, "int"), orders<int>(rng, "int"); break;
      case 1: counts<uint32_t>(rng, "uint32_t"), orders<uint32_t>(rng, "uint32_t"); break;
      case 2: counts<int64_t>(rng, "int64_t"), orders<int64_t>(rng, "int64_t"); break;
      case 3: counts<size_t>(rng, "size_t"), orders<uint8_t>(rng, "uint8_t"); break;
      case 4: counts<double>(rng, "double"), orders<double>(rng, "double"); break;
      default: counts<uint64_t>(rng, "uint64_t"), orders<float>(rng, "float"); break;
    }
  }
}
SCENARIO("codes_numbers", codes_numbers, "codes")
SCENARIO("codes_counts", codes_counts, "codes")
}  // namespace hx
