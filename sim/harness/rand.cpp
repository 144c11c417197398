// The library's random helpers: range under extreme draws, dependence on nothing but the engine's
// draws, agreement of the bulk and scaled forms with the plain ones, and moments.
#include "common.hpp"
#include <HeuristicFlow/Global>

namespace hx {
namespace {
struct Moments {
  double n = 0, s = 0, q = 0;
  void add(double v) { n++, s += v, q += v * v; }
  // |mean - mu| and |mean of squares - m2| within z standard errors
  bool off(double mu, double var, double m2, double var2, double z) const {
    return std::fabs(s / n - mu) > z * std::sqrt(var / n) || std::fabs(q / n - m2) > z * std::sqrt(var2 / n);
  }
};
constexpr double kZ = 9, kMax = std::numeric_limits<double>::max();
double ulp(double v) { return std::nextafter(std::fabs(v), INFINITY) - std::fabs(v); }

// the same draws again yield the same values, and exactly as many are consumed
template <class Fn>
void again(const char* what, Fn fn, const Vec& seen) {
  rng_tape(2);
  Vec v;
  fn(v);
  const long left = rng_tape_left();
  rng_tape(0);
  if (!same(v, seen) || left)
    fail("C22:draws", "%s: the same draws yield %s instead of %s (%ld draws left)", what, show(v).c_str(), show(seen).c_str(), left);
}
template <class A, class B>
void sameDraws(const char* what, A a, B b) {
  Vec x;
  rng_tape(1);
  a(x);
  rng_tape(0);
  hist(what, vhash(x, 3));
  again(what, b, x);
}
// ranges of every width up to the whole type, at any place of it
template <class T>
void indices(Rng& rng) {
  constexpr int digits = std::numeric_limits<T>::digits;
  const uint64_t greatest = uint64_t(std::numeric_limits<T>::max());
  const bool wide = param("wide", 0, 2, 0) > 0;
  const int bits = wide ? 1 + int(rng.below(uint64_t(digits))) : 0;
  T bound;
  if (wide) {
    bound = T(bits > 12 && rng.below(3) == 0 ? (uint64_t(3) << (bits - 3)) : rng.below(4) ? (uint64_t(1) << (bits - 1)) + rng.below(uint64_t(1) << (bits - 1)) : greatest - rng.below(std::min<uint64_t>(3, greatest)));
    probe(bits > 24 ? "more indices than a float tells apart" : "range of any width");
  } else
    bound = T(1 + (rng.below(3) ? rng.below(std::min<uint64_t>(greatest, 40)) : rng.below(std::min<uint64_t>(greatest, 1u << 20))));
  // the width of the second kind may be greater than the type itself holds
  uint64_t width = uint64_t(bound);
  if (wide && std::is_signed_v<T> && rng.below(2)) width += rng.below(greatest);
  T lo;
  if (wide) {
    const uint64_t room = uint64_t(std::numeric_limits<T>::max()) - uint64_t(std::numeric_limits<T>::min()) - width;  // modulo 2^64: the same for signed types
    lo = T(uint64_t(std::numeric_limits<T>::min()) + (room == ~uint64_t(0) ? rng.next() : rng.below(room + 1)));
  } else {
    lo = std::is_signed_v<T> ? T(int64_t(rng.below(2000)) - 1000) : T(rng.below(100));
    if (uint64_t(std::numeric_limits<T>::max()) - uint64_t(lo) < width) lo = T(uint64_t(std::numeric_limits<T>::max()) - width);
  }
  const T hi = T(uint64_t(lo) + width);
  const bool few = width <= 12 && bound <= 12;
  const int kN = wide ? 2400 : few ? 600 : 60;
  std::vector<int> hits(few ? size_t(bound) : 0), shifted(few ? size_t(width) : 0);
  std::vector<T> as(size_t(kN), 0), bs(size_t(kN), 0);
  T other = 0;
  bool bad = false;
  sut([&] {
    for (int i = 0; i < kN; i++) {
      as[size_t(i)] = heu::randIdx<T>(bound);
      if (i % 16 == 0 && !(other = heu::randIdx<T>(T(7)), other < 7)) bad = true;
      bs[size_t(i)] = heu::randIdx<T>(lo, hi);
    }
  });
  if (bad) return fail("C22:range", "randIdx(7) is %lld", (long long)other);
  // the remainders modulo 24 and the eighths of the range
  int rem[2][24] = {}, part[2][8] = {};
  for (int i = 0; i < kN; i++) {
    const T a = as[size_t(i)], b = bs[size_t(i)];
    if (a < 0 || a >= bound) return fail("C22:range", "randIdx(%lld) is %lld", (long long)bound, (long long)a);
    if (b < lo || b >= hi) return fail("C22:range", "randIdx(%lld, %lld) is %lld", (long long)lo, (long long)hi, (long long)b);
    const uint64_t off = uint64_t(b) - uint64_t(lo);
    if (few) hits[size_t(a)]++, shifted[size_t(off)]++;
    rem[0][uint64_t(a) % 24]++, rem[1][off % 24]++;
    part[0][std::min(7, int(double(a) / double(bound) * 8))]++;
    part[1][std::min(7, int(double(off) / double(width) * 8))]++;
  }
  if (env.rngx) return;
  const uint64_t widths[2] = {uint64_t(bound), width};
  for (int w = 0; w < 2; w++)
    if (widths[w] > (1u << 16)) {
      const double sd = std::sqrt(kN * 0.125 * 0.875);
      for (int k = 0; k < 8; k++)
        if (std::fabs(part[w][k] - kN * 0.125) > kZ * sd + 1)
          return fail("C22:bias", "%d of %d indices in a range of %llu lie in eighth %d of it", part[w][k], kN, (unsigned long long)widths[w], k);
      if (widths[w] < (uint64_t(1) << 46))
        for (int mod : {2, 3, 8})
          for (int k = 0; k < mod; k++) {
            int n = 0;
            for (int m = k; m < 24; m += mod) n += rem[w][m];
            const double p = 1.0 / mod;
            if (std::fabs(n - kN * p) > kZ * std::sqrt(kN * p * (1 - p)) + 1)
              return fail("C22:bias", "%d of %d indices in a range of %llu are %d modulo %d", n, kN, (unsigned long long)widths[w], k, mod);
          }
    }
  for (int w = 0; w < 2; w++) {
    const auto& h = w ? shifted : hits;
    for (size_t k = 0; k < h.size(); k++) {
      const double p = 1.0 / double(widths[w]), sd = std::sqrt(kN * p * (1 - p));
      if (widths[w] > 1 && std::fabs(h[k] - kN * p) > kZ * sd + 1)
        return fail("C22:bias", "index %zu of %llu is drawn %d times in %d", k, (unsigned long long)widths[w], h[k], kN);
    }
  }
}
void uniforms() {
  Rng rng(hcomb(case_seed(), 0xDA1A));
  phase("randD");
  const int n = param("count", 1, 400, 30);
  Moments d, f, r;
  double lo = (rng.unit() - 0.5) * std::pow(10.0, double(rng.below(7))), hi = lo + rng.unit() * std::pow(10.0, double(rng.below(7)) - 2) + 1e-6;
  // ranges of any magnitude, as far as a double goes
  switch (std::max(0, param("magnitude", 0, 9, 0) - 5)) {
    case 1: lo *= 1e-308, hi = std::max(hi * 1e-308, lo + 1e-307); break;
    case 2: lo = -kMax * (1 - rng.unit() / 2), hi = kMax * (1 - rng.unit() / 2); break;
    case 3: lo = -kMax, hi = kMax; break;
    case 4: lo = (rng.unit() - 0.5) * std::pow(10.0, 2 + double(rng.below(300))), hi = lo + std::fabs(lo) * std::pow(10.0, double(rng.below(10)) - 8) + 1e-300; break;
    default: break;
  }
  const double lo2 = (rng.unit() - 0.5) * 50, hi2 = lo2 + 1 + rng.unit();  // ranges change from call to call
  const auto place = [&](double v) { return (v / 2 - lo / 2) / (hi / 2 - lo / 2); };  // in the range
  Vec as(size_t(n), 0.0), bs(as), cs(as);
  sut([&] {
    for (size_t i = 0; i < size_t(n); i++) as[i] = heu::randD(), bs[i] = i % 3 == 2 ? heu::randD(lo2, hi2) : heu::randD(lo, hi), cs[i] = double(heu::randF());
  });
  for (int i = 0; i < n; i++) {
    const double a = as[size_t(i)], b = bs[size_t(i)], c = cs[size_t(i)];
    if (!(a >= 0 && a < 1)) return fail("C22:range", "randD() is %.17g", a);
    if (!(c >= 0 && c < 1)) return fail("C22:range", "randF() is %.9g", double(c));
    if (i % 3 == 2) {
      if (!(b >= lo2 - 2 * ulp(60) && b <= hi2 + 2 * ulp(60))) return fail("C22:range", "randD(%.17g, %.17g) is %.17g", lo2, hi2, b);
      d.add(a), f.add(double(c)), r.add((b - lo2) / (hi2 - lo2));
      continue;
    }
    const double eps = std::isinf(hi - lo) ? 0 : 2 * std::max(ulp(lo), ulp(hi));
    if (!(b >= lo - eps && b <= hi + eps)) return fail("C22:range", "randD(%.17g, %.17g) is %.17g", lo, hi, b);
    d.add(a), f.add(double(c)), r.add(place(b));
  }
  if (!env.rngx && n >= 50) {
    const Moments* all[] = {&d, &f, &r};
    const char* names[] = {"randD()", "randF()", "randD(min, max)"};
    for (int k = 0; k < 3; k++)
      if (all[k]->off(0.5, 1 / 12.0, 1 / 3.0, 4 / 45.0, kZ))
        return fail("C22:bias", "%s has mean %g (in units of its range) and mean square %g over %d draws", names[k], all[k]->s / n, all[k]->q / n, n);
  }
  const int m = param("bulk", 0, 40, 5);
  double* buf = static_cast<double*>(arena_new(size_t(m + 1) * sizeof(double), 16));
  buf[m] = 42.5;
  sameDraws("randD(array)", [&](Vec& v) { sut([&] { heu::randD(buf, m); }); v.assign(buf, buf + m); },
            [&](Vec& v) { v.resize(size_t(m)); sut([&] { for (double& q : v) q = heu::randD(); }); });
  sameDraws("randD(array, min, max)", [&](Vec& v) { sut([&] { heu::randD(buf, m, lo, hi); }); v.assign(buf, buf + m); },
            [&](Vec& v) { v.resize(size_t(m)); sut([&] { for (double& q : v) q = heu::randD(lo, hi); }); });
  if (buf[m] != 42.5) fail("C22:range", "randD(array) writes beyond the array");
  arena_delete(buf);
  auto mixed = [&](Vec& v) {
    v.resize(20);
    sut([&] {
      for (size_t i = 0; i < 20; i++)
        v[i] = (i % 4 == 0) ? heu::randD() : (i % 4 == 1) ? double(heu::randF()) : (i % 4 == 2) ? double(heu::randIdx(1000)) : heu::randD(lo, hi);
    });
  };
  sameDraws("mixed draws", mixed, mixed);
  phase("randIdx");
  switch (param("type", 0, 7, 0)) {
    case 0: indices<int>(rng); break;
    case 1: indices<size_t>(rng); break;
    case 2: indices<uint8_t>(rng); break;
    case 3: indices<int64_t>(rng); break;
    case 4: indices<int8_t>(rng); break;
    case 5: indices<int16_t>(rng); break;
    case 6: indices<uint16_t>(rng); break;
    default: indices<uint32_t>(rng); break;
  }
}
void normals() {
  Rng rng(hcomb(case_seed(), 0x40A3));
  phase("normD");
  const int n = 2 * param("count", 1, 300, 30);
  // parameters change from call to call
  Vec mus, sigmas;
  for (int k = param("kinds", 1, 4, 1); k > 0; k--) mus.push_back((rng.unit() - 0.5) * 20), sigmas.push_back(0.01 + rng.unit() * 10);
  const size_t kinds = mus.size();
  Moments d, f, r;
  Vec as(size_t(n), 0.0), bs(as), cs(as);
  sut([&] {
    for (size_t i = 0; i < size_t(n); i++) as[i] = heu::normD(), bs[i] = heu::normD(mus[i % kinds], sigmas[i % kinds]), cs[i] = double(heu::normF());
  });
  for (int i = 0; i < n; i++) {
    const double a = as[size_t(i)], b = bs[size_t(i)], c = cs[size_t(i)], mu = mus[size_t(i) % kinds], sigma = sigmas[size_t(i) % kinds];
    if (!std::isfinite(a) || !std::isfinite(b) || !std::isfinite(c)) return fail("C22:range", "normal deviates %g %g %g", a, b, double(c));
    if (!env.rngx && (std::fabs(a) > 12 || std::fabs(c) > 12 || std::fabs(b - mu) > 12 * sigma))
      return fail("C22:bias", "normal deviates %g %g, and %g for mean %g and deviation %g", a, double(c), b, mu, sigma);
    d.add(a), f.add(double(c)), r.add((b - mu) / sigma);
  }
  if (!env.rngx && n >= 50) {
    const Moments* all[] = {&d, &f, &r};
    const char* names[] = {"normD()", "normF()", "normD(mu, sigma)"};
    for (int k = 0; k < 3; k++)
      if (all[k]->off(0, 1, 1, 2, kZ))
        return fail("C22:bias", "%s has mean %g and mean square %g (standardised) over %d draws", names[k], all[k]->s / n, all[k]->q / n, n);
  }
}
}  // namespace
static void rand_uniform() { uniforms(); }
static void rand_normal() { normals(); }
SCENARIO("rand_uniform", rand_uniform, "rand")
SCENARIO("rand_normal", rand_normal, "rand")
}  // namespace hx
