// Swarms over many single generations: where particles start, and the two random factors of every move.
#include <atomic>
#include "ops.hpp"
#include "pso.hpp"

namespace hx {
namespace {
void share(long k, long n, double p, const char* cls, const char* what, int which) {
  if (env.rngx || n < 100) return;
  if (std::fabs(double(k) - double(n) * p) > 8 * std::sqrt(double(n) * p * (1 - p)) + 2)
    fail(cls, "%s %d: %ld of %ld times, %.0f are due", what, which, k, n, double(n) * p);
}
constexpr int DIM = 3;
template <class V>
void start(V* x, V* v) {
  if constexpr (kDyn<V>) x->resize(DIM), v->resize(DIM);
  static std::atomic<int> born{0};
  const int k = born++;
  for (int i = 0; i < DIM; i++) x->data()[i] = 1 + (k * (3 + 2 * i) + i) % 97, v->data()[i] = (k * (5 + 3 * i) + 2 * i) % 41 - 20.3;
}
// whole coordinates are those of the start: everything else is worse, so that the bests stay where they are
template <class V>
void away(const V* x, double* f) {
  *f = x->data()[0] == std::floor(x->data()[0]) ? x->data()[0] / 1000 : 5;
}
template <class V>
void distance(const V* x, double* f) {
  *f = 0;
  for (int i = 0; i < int(x->size()); i++) *f += double(x->data()[i]) * double(x->data()[i]);
}

template <class V>
void moves() {
  using S = heu::PSO<V, heu::BoxShape::SQUARE_BOX, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, void, away<V>, start<V>>;
  const int n = param("n", 5, 40, 12), rounds = 160;
  static const double ws[] = {0.8, 0.4, 0.1, 1.0}, cs[] = {2, 1.5, 0.7, 1.1};
  heu::PSOOption o;
  o.populationSize = size_t(n);
  o.maxGeneration = 2;
  o.maxFailTimes = 0;
  o.inertiaFactor = ws[param("w", 0, 3, 0)];
  o.learnFactorP = cs[param("cp", 0, 3, 0)];
  o.learnFactorG = cs[param("cg", 0, 3, 1)];
  S& s = *make<S>();
  sutOp([&] {
    if constexpr (kDyn<V>) s.setDimensions(DIM);
    s.setPVRange(-1e6, 1e6, 1e6);
  });
  long quarter[2][4] = {}, all = 0, same = 0, neighbour[2] = {}, neighbours = 0;
  uint64_t h = 3;
  phase("run");
  for (int r = 0; r < rounds; r++) {
    sutOp([&] {
      s.setOption(o);
      s.initializePop();
      s.run();
    });
    const Vec g = content(s.globalBest().position);
    double last[2] = {-1, -1};
    for (const auto& q : s.population()) {
      const Vec x2 = content(q.position), v2 = content(q.velocity), x0 = content(q.pBest.position);
      double aa = 0, ab = 0, bb = 0, ay = 0, by = 0;
      for (size_t i = 0; i < DIM; i++) {
        const double x1 = x2[i] - v2[i], v1 = x1 - x0[i];
        const double a = o.learnFactorP * (x0[i] - x1), b = o.learnFactorG * (g[i] - x1), y = v2[i] - o.inertiaFactor * v1;
        aa += a * a, ab += a * b, bb += b * b, ay += a * y, by += b * y;
        h = hcomb(h, dbits(x2[i]));
      }
      const double det = aa * bb - ab * ab;
      if (!(det > 1e-3 * aa * bb) || aa < 1e-4 || bb < 1e-4) {
        last[0] = -1;
        continue;
      }
      const double f[2] = {(ay * bb - by * ab) / det, (by * aa - ay * ab) / det};
      if (env.rngx) continue;  // extreme factors may leave a particle on a whole coordinate, a new best
      if (f[0] < -1e-6 || f[0] > 1 + 1e-6 || f[1] < -1e-6 || f[1] > 1 + 1e-6) {
        fail("C16:velocity", "a particle moved with the factors %.9g and %.9g", f[0], f[1]);
        unmake(&s);
        return;
      }
      all++;
      for (int k = 0; k < 2; k++) quarter[k][std::min(3, std::max(0, int(f[k] * 4)))]++;
      same += (f[0] < 0.5) == (f[1] < 0.5);
      if (last[0] >= 0) {
        neighbours++;
        for (int k = 0; k < 2; k++) neighbour[k] += (f[k] < 0.5) == (last[k] < 0.5);
      }
      last[0] = f[0], last[1] = f[1];
    }
  }
  unmake(&s);
  hist("moves", h);
  for (int k = 0; k < 2; k++) {
    for (int q = 0; q < 4; q++) share(quarter[k][q], all, 0.25, "C16:factors", k ? "a factor towards the swarm's best in quarter" : "a factor towards the particle's best in quarter", q);
    share(neighbour[k], neighbours, 0.5, "C16:factors", "the factors of neighbouring particles in the same half, factor", k);
  }
  share(same, all, 0.5, "C16:factors", "both factors of a particle in the same half", 0);
  if (all >= 100) probe("factors of moves counted");
}

template <class V, bool Rect>
void starts() {
  using S = heu::PSO<V, Rect ? heu::BoxShape::RECTANGLE_BOX : heu::BoxShape::SQUARE_BOX, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, void, distance<V>>;
  using T = typename heu::array_traits<V>::Scalar_t;
  const int n = param("n", 5, 60, 20), rounds = 60;
  const int dim = kDyn<V> ? (kMatrix<V> ? 2 * param("dim", 1, 3, 2) : param("dim", 2, 6, 3)) : int(heu::array_traits<V>::sizeCT);
  Rng r(hcomb(case_seed(), 0x517));
  Vec lo, hi, vm;
  for (int k = 0; k < (Rect ? dim : 1); k++) {
    lo.push_back(double(T(double(r.below(200)) - 100)));
    hi.push_back(double(T(lo.back() + 1 + double(r.below(40)) / 4)));
    vm.push_back(1);
  }
  S& s = *make<S>();
  sutOp([&] {
    if constexpr (kDyn<V>) {
      if constexpr (kMatrix<V>) s.setDimensions(dim / 2, 2);
      else s.setDimensions(dim);
    }
    if constexpr (Rect) s.setPVRange(filled<V>(lo, dim), filled<V>(hi, dim), filled<V>(vm, dim));
    else s.setPVRange(T(lo[0]), T(hi[0]), T(1));
  });
  heu::PSOOption o;
  o.populationSize = size_t(n);
  std::vector<long> quarter(size_t(dim) * 4, 0), same(size_t(dim), 0);
  long all = 0, next = 0, nexts = 0;
  uint64_t h = 7;
  phase("initialise");
  for (int i = 0; i < rounds; i++) {
    sutOp([&] {
      s.setOption(o);
      s.initializePop();
    });
    bool before = false;
    int place = 0;
    for (const auto& q : s.population()) {
      const Vec x = content(q.position), v = content(q.velocity);
      if (int(x.size()) != dim || int(v.size()) != dim) {
        fail("C14:size", "a particle has %zu coordinates and %zu of velocity instead of %d", x.size(), v.size(), dim);
        unmake(&s);
        return;
      }
      all++;
      h = vhash(x, h);
      bool up = false, first = false;
      for (int k = 0; k < dim; k++) {
        const size_t c = Rect ? size_t(k) : 0;
        const double z = (x[size_t(k)] - lo[c]) / (hi[c] - lo[c]);
        quarter[size_t(k * 4 + std::min(3, std::max(0, int(z * 4))))]++;
        if (k) same[size_t(k)] += up == (z < 0.5);
        else first = z < 0.5;
        up = z < 0.5;
      }
      if (place++) nexts++, next += first == before;
      before = up;
    }
  }
  unmake(&s);
  hist("starts", h);
  for (int k = 0; k < dim; k++) {
    for (int q = 0; q < 4; q++) share(quarter[size_t(k * 4 + q)], all, 0.25, "C14:spread", "a particle starts in a quarter of the range of coordinate", k);
    if (k) share(same[size_t(k)], all, 0.5, "C14:spread", "a particle starts in the same half of two coordinates, the second is", k);
  }
  share(next, nexts, 0.5, "C14:spread", "two particles start in the same half, coordinate", 0);
  if (all >= 100) probe("starts counted");
}
void move() {
  switch (param("kind", 0, 3, 0)) {
    case 0: moves<std::array<double, DIM>>(); break;
    case 1: moves<Eigen::Array<double, DIM, 1>>(); break;
    case 2: moves<std::vector<double>>(); break;
    default: moves<Eigen::ArrayXd>();
  }
}
void begin() {
  switch (param("kind", 0, 5, 0)) {
    case 0: starts<std::array<double, 4>, false>(); break;
    case 1: starts<Eigen::Array<double, 3, 1>, true>(); break;
    case 2: starts<std::vector<float>, true>(); break;
    case 3: starts<Eigen::ArrayXf, false>(); break;
    case 4: starts<Eigen::ArrayXXd, true>(); break;
    default: starts<std::array<float, 2>, true>();
  }
}
}  // namespace
SCENARIO("vary_swarm", move, "varyp")
SCENARIO("vary_start", begin, "varys")
}  // namespace hx
