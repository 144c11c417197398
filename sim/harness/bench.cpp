// The formulas of the benchmark objectives, as published.
#include "bench.hpp"

namespace hx {
static const double PI = 3.14159265358979323846;
static double sq(double a) { return a * a; }
#define R2(expr) [](const Vec& v, int) -> Vec { const double x = v[0], y = v[1]; (void)x; (void)y; return Vec{expr}; }
static Vec dtlzSphere(const Vec& v, int m, double g, double alpha) {  // f_1 = (1+g) cos cos .. cos, f_m = (1+g) sin(first angle)
  Vec f(size_t(m), 0.0);
  for (int j = 0; j < m; j++) {
    double p = 1 + g;
    for (int i = 0; i < m - 1 - j; i++) p *= std::cos(std::pow(v[size_t(i)], alpha) * PI / 2);
    if (j) p *= std::sin(std::pow(v[size_t(m - 1 - j)], alpha) * PI / 2);
    f[size_t(j)] = p;
  }
  return f;
}
static double gSquare(const Vec& v, int m) {
  double g = 0;
  for (size_t i = size_t(m - 1); i < v.size(); i++) g += sq(v[i] - 0.5);
  return g;
}
static double gCos(const Vec& v, int m) {
  double g = double(v.size()) - m + 1;
  for (size_t i = size_t(m - 1); i < v.size(); i++) g += sq(v[i] - 0.5) - std::cos(20 * PI * (v[i] - 0.5));
  return 100 * g;
}
static Vec windows(const Vec& v, int m, double exponent, double divisor) {
  const int n = int(v.size());
  Vec f(size_t(m), 0.0);
  for (int j = 0; j < m; j++)
    for (int i = j * n / m; i <= std::min(n - 1, (j + 1) * n / m); i++) f[size_t(j)] += std::pow(v[size_t(i)], exponent) / divisor;
  return f;
}
static Vec dtlz8(const Vec& v, int m) { return windows(v, m, 1, int(v.size()) / m); }
static Vec dtlz9(const Vec& v, int m) { return windows(v, m, 0.1, 1); }
static const BenchRef kRefs[] = {
    {"ackley", -5, 5, 2, 1, R2(-20 * std::exp(-0.2 * std::sqrt(0.5 * (x * x + y * y))) - std::exp(0.5 * (std::cos(2 * PI * x) + std::cos(2 * PI * y))) + std::exp(1.0) + 20)},
    {"beale", -4.5, 4.5, 2, 1, R2(sq(1.5 - x + x * y) + sq(2.25 - x + x * y * y) + sq(2.625 - x + x * y * y * y))},
    {"GoldsteinPrice", -2, 2, 2, 1, R2((1 + sq(x + y + 1) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)) * (30 + sq(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y)))},
    {"booth", -10, 10, 2, 1, R2(sq(x + 2 * y - 7) + sq(2 * x + y - 5))},
    {"bukin", -15, 5, 2, 1, R2(100 * std::sqrt(std::fabs(y - 0.01 * x * x)) + 0.01 * std::fabs(x + 10))},
    {"matyas", -10, 10, 2, 1, R2(0.26 * (x * x + y * y) - 0.48 * x * y)},
    {"levy", -10, 10, 2, 1, R2(sq(std::sin(3 * PI * x)) + sq(x - 1) * (1 + sq(std::sin(3 * PI * y))) + sq(y - 1) * (1 + sq(std::sin(2 * PI * y))))},
    {"himmelblau", -5, 5, 2, 1, R2(sq(x * x + y - 11) + sq(x + y * y - 7))},
    {"threeHumpCamel", -5, 5, 2, 1, R2(2 * x * x - 1.05 * x * x * x * x + x * x * x * x * x * x / 6 + x * y + y * y)},
    {"easom", -100, 100, 2, 1, R2(-std::cos(x) * std::cos(y) * std::exp(-(sq(x - PI) + sq(y - PI))))},
    {"crossInTray", -10, 10, 2, 1, R2(-0.0001 * std::pow(std::fabs(std::sin(x) * std::sin(y) * std::exp(std::fabs(100 - std::hypot(x, y) / PI))) + 1, 0.1))},
    {"eggHolder", -512, 512, 2, 1, R2(-(y + 47) * std::sin(std::sqrt(std::fabs(x / 2 + y + 47))) - x * std::sin(std::sqrt(std::fabs(x - (y + 47)))))},
    {"holderTable", -10, 10, 2, 1, R2(-std::fabs(std::sin(x) * std::cos(y) * std::exp(std::fabs(1 - std::hypot(x, y) / PI))))},
    {"McCormick", -3, 4, 2, 1, R2(std::sin(x + y) + sq(x - y) - 1.5 * x + 2.5 * y + 1)},
    {"schaffer2", -100, 100, 2, 1, R2(0.5 + (sq(std::sin(x * x - y * y)) - 0.5) / sq(1 + 0.001 * (x * x + y * y)))},
    {"schaffer4", -100, 100, 2, 1, R2(0.5 + (sq(std::cos(std::sin(std::fabs(x * x - y * y)))) - 0.5) / sq(1 + 0.001 * (x * x + y * y)))},
    {"rastrigin", -5.12, 5.12, 0, 1, [](const Vec& v, int) { double s = 10.0 * double(v.size()); for (double x : v) s += x * x - 10 * std::cos(2 * PI * x); return Vec{s}; }},
    {"sphere", -100, 100, 0, 1, [](const Vec& v, int) { double s = 0; for (double x : v) s += x * x; return Vec{s}; }},
    {"rosenbrock", -10, 10, 0, 1, [](const Vec& v, int) { double s = 0; for (size_t i = 0; i + 1 < v.size(); i++) s += 100 * sq(v[i + 1] - v[i] * v[i]) + sq(1 - v[i]); return Vec{s}; }},
    {"styblinskiTang", -5, 5, 0, 1, [](const Vec& v, int) { double s = 0; for (double x : v) s += x * x * x * x - 16 * x * x + 5 * x; return Vec{s / 2}; }},
    {"Schaffer1", -10, 10, 1, 2, [](const Vec& v, int) { return Vec{v[0] * v[0], sq(v[0] - 2)}; }},
    {"Schaffer2", -5, 10, 1, 2, [](const Vec& v, int) { const double x = v[0]; return Vec{x <= 1 ? -x : x <= 3 ? x - 2 : x <= 4 ? 4 - x : x - 4, sq(x - 5)}; }},
    {"BinhKorn", -2, 7, 2, 2, [](const Vec& v, int) { return Vec{4 * v[0] * v[0] + 4 * v[1] * v[1], sq(v[0] - 5) + sq(v[1] - 5)}; },
     [](const Vec& v, int) { return Vec{sq(v[0] - 5) + v[1] * v[1] - 25, 7.7 - sq(v[0] - 8) - sq(v[1] + 3)}; }},
    {"ChangkongHaimes", -20, 20, 2, 2, [](const Vec& v, int) { return Vec{2 + sq(v[0] - 2) + sq(v[1] - 1), 9 * v[0] - sq(v[1] - 1)}; },
     [](const Vec& v, int) { return Vec{v[0] * v[0] + v[1] * v[1] - 225, v[0] - 3 * v[1] + 10}; }},
    {"Poloni", -PI, PI, 2, 2, [](const Vec& v, int) {
       const double a1 = 0.5 * std::sin(1.) - 2 * std::cos(1.) + std::sin(2.) - 1.5 * std::cos(2.), a2 = 1.5 * std::sin(1.) - std::cos(1.) + 2 * std::sin(2.) - 0.5 * std::cos(2.);
       const double b1 = 0.5 * std::sin(v[0]) - 2 * std::cos(v[0]) + std::sin(v[1]) - 1.5 * std::cos(v[1]), b2 = 1.5 * std::sin(v[0]) - std::cos(v[0]) + 2 * std::sin(v[1]) - 0.5 * std::cos(v[1]);
       return Vec{1 + sq(a1 - b1) + sq(a2 - b2), sq(v[0] + 3) + sq(v[1] + 1)};
     }},
    {"viennet", -3, 3, 2, 3, [](const Vec& v, int) {
       const double x = v[0], y = v[1], q = x * x + y * y;
       return Vec{0.5 * q + std::sin(q), sq(3 * x - 2 * y + 4) / 8 + sq(x - y + 1) / 27 + 15, 1 / (q + 1) - 1.1 * std::exp(-q)};
     }},
    {"FonsecaFleming", -4, 4, 0, 2, [](const Vec& v, int) {
       double a = 0, b = 0;
       const double r = 1 / std::sqrt(double(v.size()));
       for (double x : v) a += sq(x - r), b += sq(x + r);
       return Vec{1 - std::exp(-a), 1 - std::exp(-b)};
     }},
    {"Kursawe", -5, 5, 0, 2, [](const Vec& v, int) {
       double a = 0, b = 0;
       for (size_t i = 0; i + 1 < v.size(); i++) a -= 10 * std::exp(-0.2 * std::sqrt(v[i] * v[i] + v[i + 1] * v[i + 1]));
       for (double x : v) b += std::pow(std::fabs(x), 0.8) + 5 * std::sin(x * x * x);
       return Vec{a, b};
     }},
    {"DTLZ1", 0, 1, 0, 0, [](const Vec& v, int m) {
       const double g = gCos(v, m);
       Vec f(size_t(m), 0.0);
       for (int j = 0; j < m; j++) {
         double p = 0.5 * (1 + g);
         for (int i = 0; i < m - 1 - j; i++) p *= v[size_t(i)];
         if (j) p *= 1 - v[size_t(m - 1 - j)];
         f[size_t(j)] = p;
       }
       return f;
     }},
    {"DTLZ2", 0, 1, 0, 0, [](const Vec& v, int m) { return dtlzSphere(v, m, gSquare(v, m), 1); }},
    {"DTLZ3", 0, 1, 0, 0, [](const Vec& v, int m) { return dtlzSphere(v, m, gCos(v, m), 1); }},
    {"DTLZ4", 0, 1, 0, 0, [](const Vec& v, int m) { return dtlzSphere(v, m, gSquare(v, m), 100); }},
    {"DTLZ4<3>", 0, 1, 0, 0, [](const Vec& v, int m) { return dtlzSphere(v, m, gSquare(v, m), 3); }},
    {"DTLZ5", 0, 1, 0, 0, nullptr, nullptr, [](const Vec& v, int m) { return 1 + gSquare(v, m); }},
    {"DTLZ6", 0, 1, 0, 0, nullptr, nullptr, [](const Vec& v, int m) { double g = 1; for (size_t i = size_t(m - 1); i < v.size(); i++) g += std::pow(v[i], 0.1); return g; }},
    {"DTLZ7", 0, 1, 0, 0, [](const Vec& v, int m) {
       Vec f(v.begin(), v.begin() + m - 1);
       double g = 0;
       for (size_t i = size_t(m - 1); i < v.size(); i++) g += v[i];
       g = 1 + 9 * g / double(v.size() - size_t(m) + 1);
       double h = m;
       for (double x : f) h -= x / (1 + g) * (1 + std::sin(3 * PI * x));
       f.push_back((1 + g) * h);
       return f;
     }},
    {"DTLZ8", 0, 1, 0, 0, dtlz8, [](const Vec& v, int m) {
       const Vec f = dtlz8(v, m);
       Vec g;
       for (int j = 0; j + 1 < m; j++) g.push_back(1 - f[size_t(m - 1)] - 4 * f[size_t(j)]);
       double least = std::numeric_limits<double>::infinity();
       for (int a = 0; a + 1 < m; a++)
         for (int b = a + 1; b + 1 < m; b++) least = std::min(least, f[size_t(a)] + f[size_t(b)]);
       g.push_back(1 - 2 * f[size_t(m - 1)] - least);
       return g;
     }},
    {"DTLZ9", 0, 1, 0, 0, dtlz9, [](const Vec& v, int m) {
       const Vec f = dtlz9(v, m);
       Vec g;
       for (int j = 0; j + 1 < m; j++) g.push_back(1 - sq(f[size_t(m - 1)]) - sq(f[size_t(j)]));
       return g;
     }},
};
const BenchRef* benchRef(const char* name) {
  for (const BenchRef& r : kRefs)
    if (!strcmp(r.name, name)) return &r;
  abort();
}

namespace {
using E2 = Eigen::Array<double, 2, 1>;
using E5 = Eigen::Array<double, 5, 1>;
using EX = Eigen::ArrayXd;
using S2 = std::array<double, 2>;
using S5 = std::array<double, 5>;
using SX = std::vector<double>;
}  // namespace
static void so2_fixed() { param("kind", 0, 1, 0) ? benchCase(benchSo2<E2>(), benchSo2<S2>(), 2, 1) : benchCase(benchSo2<S2>(), benchSo2<E2>(), 2, 1); }
static void so2_dyn() { param("kind", 0, 1, 0) ? benchCase(benchSo2<EX>(), benchSo2<SX>(), 2, 1) : benchCase(benchSo2<SX>(), benchSo2<EX>(), 2, 1); }
static void sox_fixed() { param("kind", 0, 1, 0) ? benchCase(benchSoX<E5>(), benchSoX<S5>(), 5, 1) : benchCase(benchSoX<S5>(), benchSoX<E5>(), 5, 1); }
static void sox_dyn() {
  const int n = drawSize("dim", 1, 9, 3, 300);
  param("kind", 0, 1, 0) ? benchCase(benchSoX<EX>(), benchSoX<SX>(), n, 1) : benchCase(benchSoX<SX>(), benchSoX<EX>(), n, 1);
}
SCENARIO("bench_so2_fixed", so2_fixed, "bench")
SCENARIO("bench_so2_dynamic", so2_dyn, "bench")
SCENARIO("bench_so_fixed", sox_fixed, "bench")
SCENARIO("bench_so_dynamic", sox_dyn, "bench")
}  // namespace hx
