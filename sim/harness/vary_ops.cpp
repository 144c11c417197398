// Boxes and crossover operators over thousands of calls: which component, how far, in which direction, how the draws of
// components and children depend on each other.
#include "ops.hpp"

namespace hx {
namespace {
constexpr int N = 3000;
// k of n where the share p is due
void share(long k, long n, double p, const char* cls, const char* what, size_t comp) {
  if (env.rngx || n < 100 || p <= 0 || p >= 1) return;
  const double sd = std::sqrt(double(n) * p * (1 - p));
  if (std::fabs(double(k) - double(n) * p) > 8 * sd + 4)
    fail(cls, "%s %zu: %ld of %ld times, %.0f are due", what, comp, k, n, double(n) * p);
}
// one component of each call is due: those beyond the sizes of words and small buffers together
void beyond(const std::vector<long>& k, long n, const char* cls, const char* what) {
  for (size_t from : {8, 16, 32, 64, 128, 256}) {
    if (from >= k.size()) return;
    long sum = 0;
    for (size_t i = from; i < k.size(); i++) sum += k[i];
    share(sum, n, double(k.size() - from) / double(k.size()), cls, what, from);
  }
}
// signs of deviations of two components together: half of them agree
struct Pairs {
  long same = 0, n = 0;
  void add(bool a, bool b) { same += a == b, n++; }
  void check(const char* cls, const char* what, size_t comp) { share(same, n, 0.5, cls, what, comp); }
};

template <class V, bool Rect, bool Disc>
void box() {
  using T = typename heu::array_traits<V>::Scalar_t;
  using B = std::conditional_t<Disc, DBox<V, Rect>, CBox<V, Rect>>;
  GaCfg c;
  if constexpr (kDyn<V>) c.dim = drawSize("dim", 2, 7, 3, 300, 4) & (kMatrix<V> ? ~1 : ~0);
  else c.dim = heu::array_traits<V>::sizeCT;
  const size_t dim = size_t(c.dim);
  Rng r(hcomb(case_seed(), 0xb0f));
  const size_t bounds = Rect ? dim : 1;
  for (size_t k = 0; k < bounds; k++) {
    const double lo = std::is_unsigned_v<T> ? double(r.below(90)) : double(r.below(200)) - 100;
    const double w = Disc ? double(4 + 2 * r.below(10)) : 1 + double(r.below(100)) / 8;
    c.lo.push_back(lo), c.hi.push_back(lo + w);
    c.step.push_back(Disc ? 1 : w / double(2 + r.below(6)));
  }
  B& b = *make<B>();
  sutOp([&] { fillBox<V, B, Rect>(b, c); });
  V &x = *make<V>(), &y = *make<V>();
  auto lo = [&](size_t k) { return c.lo[k % bounds]; };
  auto hi = [&](size_t k) { return c.hi[k % bounds]; };
  auto step = [&](size_t k) { return double(T(c.step[k % bounds])); };
  uint64_t h = 5;
  phase("initialise");
  {
    std::vector<std::vector<long>> bin(dim, std::vector<long>(4, 0));
    std::vector<std::vector<long>> value(dim);
    for (size_t k = 0; k < dim; k++) value[k].resize(Disc ? size_t(hi(k) - lo(k)) + 1 : 0, 0);
    std::vector<Pairs> pairs(dim);
    Pairs calls;
    bool before = false;
    for (int i = 0; i < N; i++) {
      sutOp([&] { b.initialize(&x); });
      Vec v = content(x);
      h = vhash(v, h);
      if (v.size() != dim) {
        fail("C14:size", "an initialised variable has %zu components instead of %zu", v.size(), dim);
        return;
      }
      auto upper = [&](size_t k) { return v[k] - lo(k) > (hi(k) - lo(k)) / 2; };
      for (size_t k = 0; k < dim; k++) {
        const double q = (v[k] - lo(k)) / (hi(k) - lo(k));
        if (q < -1e-6 || q > 1 + 1e-6) {
          fail("C14:box", "component %zu was initialised with %.9g, the box is [%g, %g]", k, v[k], lo(k), hi(k));
          return;
        }
        if (Disc) value[k][size_t(v[k] - lo(k))]++;
        else bin[k][std::min<size_t>(3, size_t(q * 4))]++;
        if (k) pairs[k].add(upper(k), upper(k - 1));
      }
      if (i) calls.add(upper(0), before);
      before = upper(dim - 1);
    }
    for (size_t k = 0; k < dim; k++) {
      if (Disc)
        for (size_t q = 0; q < value[k].size(); q++) share(value[k][q], N, 1.0 / double(value[k].size()), "C14:spread", "initialising a component with value number", q);
      else
        for (size_t q = 0; q < 4; q++) share(bin[k][q], N, 0.25, "C14:spread", "initialising a component in a quarter of its range, component", k);
      if (k && !Disc) pairs[k].check("C14:spread", "two components in the same halves of their ranges, component", k);
    }
    if (!Disc) calls.check("C14:spread", "two variables in the same halves of the range, component", 0);
  }
  phase("mutate");
  {
    std::vector<T> mid(dim);
    for (size_t k = 0; k < dim; k++) mid[k] = T((lo(k) + hi(k)) / 2);
    std::vector<long> changed(dim, 0), up(dim, 0);
    std::vector<std::vector<long>> far(dim, std::vector<long>(4, 0));
    for (int i = 0; i < N; i++) {
      for (size_t k = 0; k < dim; k++) y.size() == dim ? void(y.data()[k] = mid[k]) : void(0);
      if (y.size() != dim) {
        sutOp([&] { y = x; });
        i--;
        continue;
      }
      sutOp([&] { b.applyDelta(&y); });
      int ch = 0;
      for (size_t k = 0; k < dim; k++) {
        const double d = double(y.data()[k]) - double(mid[k]);
        if (d == 0) continue;
        ch++;
        changed[k]++;
        up[k] += d > 0;
        far[k][std::min<size_t>(3, size_t(std::fabs(d) / step(k) * 4))]++;
        h = hcomb(h, dbits(d) + k);
        if (std::fabs(d) > step(k) * (1 + 1e-5) + 2e-5) {
          fail("C15:step", "component %zu was moved by %.9g, the step is %.9g", k, d, step(k));
          return;
        }
      }
      if (ch > 1) {
        fail("C15:many", "a mutation changed %d components", ch);
        return;
      }
    }
    long all = 0;
    for (size_t k = 0; k < dim; k++) all += changed[k];
    if (all < N - 60) fail("C15:rate", "%ld of %d mutations changed something in the middle of the box", all, N);
    beyond(changed, all, "C15:rate", "mutating components from");
    for (size_t k = 0; k < dim; k++) {
      share(changed[k], all, 1.0 / double(dim), "C15:rate", "mutating component", k);
      share(up[k], changed[k], 0.5, "C15:rate", "a mutation upwards of component", k);
      if (!Disc)
        for (size_t q = 0; q < 4; q++) share(far[k][q], changed[k], 0.25, "C15:rate", "a mutation within a quarter of the step, component", k);
    }
    probe("mutations counted");
  }
  hist("boxes", h);
  unmake(&x);
  unmake(&y);
  unmake(&b);
}

template <class V>
void flips() {
  using B = DBox<V, false>;
  GaCfg c;
  if constexpr (kDyn<V>) c.dim = drawSize("dim", 2, 9, 3, 300, 4);
  else c.dim = heu::array_traits<V>::sizeCT;
  const size_t dim = size_t(c.dim);
  B& b = *make<B>();
  sutOp([&] { fillBox<V, B, false>(b, c); });
  V& x = *make<V>();
  std::vector<long> ones(dim, 0), flip(dim, 0);
  std::vector<Pairs> pairs(dim);
  uint64_t h = 9;
  for (int i = 0; i < N; i++) {
    sutOp([&] { b.initialize(&x); });
    Vec v = content(x);
    for (size_t k = 0; k < dim; k++) {
      ones[k] += v[k] != 0;
      if (k) pairs[k].add(v[k] != 0, v[k - 1] != 0);
    }
    sutOp([&] { b.applyDelta(&x); });
    Vec m = content(x);
    int ch = 0;
    for (size_t k = 0; k < dim; k++)
      if (v[k] != m[k]) flip[k]++, ch++;
    if (ch != 1) {
      fail("C15:flip", "a boolean mutation changed %d components", ch);
      return;
    }
    h = vhash(m, h);
  }
  beyond(flip, N, "C15:rate", "flipping components from");
  for (size_t k = 0; k < dim; k++) {
    share(ones[k], N, 0.5, "C14:spread", "initialising to true component", k);
    share(flip[k], N, 1.0 / double(dim), "C15:rate", "flipping component", k);
    if (k) pairs[k].check("C14:spread", "two equal components of a boolean variable, component", k);
  }
  hist("flips", h);
  unmake(&x);
  unmake(&b);
}

template <class V>
void crossed() {
  using T = typename heu::array_traits<V>::Scalar_t;
  using D = heu::GADefaults<V, void>;
  size_t dim = kDyn<V> ? size_t(drawSize("dim", 2, 7, 3, 300, 4)) : size_t(heu::array_traits<V>::sizeCT);
  V &p = *make<V>(), &q = *make<V>(), &a = *make<V>(), &b = *make<V>();
  if constexpr (kDyn<V>) sutOp([&] { p.resize(dim), q.resize(dim), a.resize(1), b.resize(dim); });
  for (size_t k = 0; k < dim; k++) p.data()[k] = T(k + 1), q.data()[k] = T(50 + k);
  constexpr auto r110 = heu::DivEncode<1, 10>::code;
  uint64_t h = 3;
  std::vector<long> cut(dim, 0);
  std::vector<long> own[2], other[2];
  std::vector<Pairs> chain(dim), both(dim);
  for (auto* v : {&own[0], &own[1], &other[0], &other[1]}) v->assign(dim, 0);
  for (int i = 0; i < N; i++) {
    sutOp([&] {
      if constexpr (kDyn<V>) D::cFunSwapXs(&p, &q, &a, &b);
      else D::cFunSwapNs(&p, &q, &a, &b);
    });
    Vec c = content(a), d = content(b);
    size_t at = 0;
    while (at < dim && c[at] == double(p.data()[at])) at++;
    if (at < dim) cut[at]++;
    h = vhash(c, h);
    for (int form = 0; form < 2; form++) {
      sutOp([&] {
        if constexpr (kDyn<V>) {
          if (form) D::template cFunRandXs<r110>(&p, &q, &a, &b);
          else D::template cFunRandXs<>(&p, &q, &a, &b);
        } else {
          if (form) D::template cFunRandNs<r110>(&p, &q, &a, &b);
          else D::template cFunRandNs<>(&p, &q, &a, &b);
        }
      });
      c = content(a), d = content(b);
      for (size_t k = 0; k < dim; k++) {
        const bool s = c[k] == double(p.data()[k]), t = d[k] == double(q.data()[k]);
        own[form][k] += s, other[form][k] += t;
        if (!form) {
          both[k].add(s, t);
          if (k) chain[k].add(s, c[k - 1] == double(p.data()[k - 1]));
        }
      }
      h = vhash(c, vhash(d, h));
    }
  }
  beyond(cut, N, "C15:rate", "exchanging the components from numbers from");
  for (size_t k = 0; k < dim; k++) {
    share(cut[k], N, 1.0 / double(dim), "C15:rate", "exchanging the components from number", k);
    for (int form = 0; form < 2; form++) {
      share(own[form][k], N, form ? 0.1 : 0.5, "C15:rate", "the first child taking from the first parent component", k);
      share(other[form][k], N, form ? 0.1 : 0.5, "C15:rate", "the second child taking from the second parent component", k);
    }
    both[k].check("C15:rate", "both children taking from their own parent or both from the other, component", k);
    if (k) chain[k].check("C15:rate", "a child taking two neighbouring components from the same parent, component", k);
  }
  probe("crossovers counted");
  hist("crossed", h);
  unmake(&p);
  unmake(&q);
  unmake(&a);
  unmake(&b);
}


void gauss() {
  using V = std::array<double, 4>;
  using B = heu::GaussianBox<V>;
  B& b = *make<B>();
  const double mu = param("mu", 0, 9, 0) * 7.0 - 20, sigma = (1 + param("sigma", 0, 9, 0)) / 4.0, d = (1 + param("step", 0, 9, 0)) / 8.0;
  b.setMu(mu), b.setSigma(sigma), b.setDelta(d);
  V& x = *make<V>();
  long below[4] = {}, within[4] = {}, twice[4] = {}, changed[4] = {}, up[4] = {}, far[4] = {};
  Pairs pairs[4];
  uint64_t h = 11;
  for (int i = 0; i < N; i++) {
    sutOp([&] { b.initialize(&x); });
    for (size_t k = 0; k < 4; k++) {
      const double z = (x[k] - mu) / sigma;
      below[k] += z < 0, within[k] += std::fabs(z) < 1, twice[k] += std::fabs(z) < 2;
      if (k) pairs[k].add(z < 0, x[k - 1] < mu);
    }
    h = vhash(content(x), h);
    const V was = x;
    sutOp([&] { b.applyDelta(&x); });
    for (size_t k = 0; k < 4; k++)
      if (x[k] != was[k]) changed[k]++, up[k] += x[k] > was[k], far[k] += std::fabs(x[k] - was[k]) > d / 2;
  }
  long all = 0;
  for (size_t k = 0; k < 4; k++) all += changed[k];
  if (all > N || all < N - 60) fail("C15:rate", "%d mutations changed %ld components", N, all);
  for (size_t k = 0; k < 4; k++) {
    share(below[k], N, 0.5, "C14:spread", "initialising below the mean component", k);
    share(within[k], N, 0.682689492, "C14:spread", "initialising within one deviation component", k);
    share(twice[k], N, 0.954499736, "C14:spread", "initialising within two deviations component", k);
    share(changed[k], all, 0.25, "C15:rate", "mutating component", k);
    share(up[k], changed[k], 0.5, "C15:rate", "a mutation upwards of component", k);
    share(far[k], changed[k], 0.5, "C15:rate", "a mutation by more than half of the step of component", k);
    if (k) pairs[k].check("C14:spread", "two components on the same side of the mean, component", k);
  }
  hist("gauss", h);
  unmake(&x);
  unmake(&b);
}

void continuous() {
  switch (param("kind", 0, 5, 0)) {
    case 0: box<std::array<double, 5>, false, false>(); break;
    case 1: box<std::vector<double>, true, false>(); break;
    case 2: box<Eigen::Array<double, 4, 1>, true, false>(); break;
    case 3: box<Eigen::ArrayXf, false, false>(); break;
    case 4: box<Eigen::Array<double, 2, 3>, true, false>(); break;
    default: gauss();
  }
}
void discrete() {
  switch (param("kind", 0, 4, 0)) {
    case 0: box<std::array<int, 4>, false, true>(); break;
    case 1: box<std::vector<int16_t>, true, true>(); break;
    case 2: box<Eigen::ArrayXi, true, true>(); break;
    case 3: flips<std::array<bool, 5>>(); break;
    default: flips<Eigen::Array<bool, Eigen::Dynamic, 1>>();
  }
}
void crossover() {
  switch (param("kind", 0, 3, 0)) {
    case 0: crossed<std::array<double, 5>>(); break;
    case 1: crossed<std::vector<int>>(); break;
    case 2: crossed<Eigen::ArrayXd>(); break;
    default: crossed<Eigen::Array<float, 3, 1>>();
  }
}
}  // namespace
SCENARIO("vary_continuous", continuous, "varyb")
SCENARIO("vary_discrete", discrete, "varyb")
SCENARIO("vary_crossover", crossover, "vary")
}  // namespace hx
