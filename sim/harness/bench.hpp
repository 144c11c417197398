// The library's benchmark objectives: every one against an independent formula, on every kind of container, called again on
// other memory and by several threads at once.
#pragma once
#include "common.hpp"

namespace hx {
struct BenchRef {
  const char* name;
  double lo, hi;
  int n, m;                   // variables (0: any) and objectives (0: any)
  Vec (*ref)(const Vec&, int);  // null: no formula is claimed, only that all containers agree
  Vec (*bound)(const Vec&, int);  // constraints, each <= 0 where it is met; a point that violates one is penalized
  double (*radius)(const Vec&, int);  // the objectives lie on the sphere of this radius
};
const BenchRef* benchRef(const char* name);

struct BArg {
  int dummy[4] = {1, 2, 3, 4};
};
template <class C, class = void>
struct IsFixed : std::true_type {};
template <class T>
struct IsFixed<std::vector<T>> : std::false_type {};
template <class T>
struct IsFixed<Eigen::Array<T, Eigen::Dynamic, 1>> : std::false_type {};
template <class T>
constexpr bool kFixed = IsFixed<T>::value;

template <class V, class F>
struct Bench {
  void (*fn)(const V*, F*);
  void (*fnArg)(const V*, const BArg*, F*);
  const char* name;
};
std::map<uint64_t, Vec>& benchSeen();

template <class F>
Vec outOf(const F& f) {
  if constexpr (std::is_floating_point_v<F>) return Vec{double(f)};
  else return content(f);
}
template <class C>
C* makeDim(int n, double fill) {
  C* c = make<C>();
  if constexpr (std::is_floating_point_v<C>) {
    *c = fill;
  } else {
    if constexpr (!kFixed<C>) sutOp([&] { c->resize(size_t(n)); });
    for (long i = 0; i < long(c->size()); i++) (*c)[size_t(i)] = fill;
  }
  return c;
}

template <class V, class F>
void benchRun(const Bench<V, F>& b, int n, int m) {
  const BenchRef& r = *benchRef(b.name);
  phase(b.name);
  Rng rng(hcomb(case_seed(), 0xBE7C));
  const int P = param("points", 1, 24, 4);
  const bool withArg = b.fnArg && param("arg", 0, 1, 0);
  std::vector<V*> x;
  std::vector<F*> f;
  std::vector<Vec> xs, want;
  BArg* arg = make<BArg>();
  for (int i = 0; i < P; i++) {
    V* v = makeDim<V>(n, 0);
    for (int k = 0; k < n; k++) {
      const int q = int(rng.below(12));
      double d = r.lo + (r.hi - r.lo) * rng.unit();
      if (q == 0) d = r.lo;
      if (q == 1) d = r.hi;
      if (q == 2) d = std::min(r.hi, std::max(r.lo, double(int64_t(d))));
      (*v)[size_t(k)] = d;
    }
    x.push_back(v);
    xs.push_back(content(*v));
    f.push_back(makeDim<F>(r.n && r.m > 1 && rng.below(2) ? int(rng.below(uint64_t(m + 3))) : m, 1e300));  // these size the result themselves
  }
  auto call = [&](int i, F* out) {
    if (withArg) b.fnArg(x[size_t(i)], arg, out);
    else b.fn(x[size_t(i)], out);
  };
  // a problem of other dimensions in between: nothing of it may stay behind
  const int others = param("others", 0, 3, 0);
  auto strange = [&] {
    const int m2 = !kFixed<F> && !r.m ? 2 + int(rng.below(8)) : m;
    const int n2 = !kFixed<V> && !r.n ? (r.m ? 2 : m2 + 1) + int(rng.below(8)) : n;
    if ((n2 == n && m2 == m) || (!r.m && n2 <= m2)) return;
    V* v = makeDim<V>(n2, 0);
    for (int k = 0; k < n2; k++) (*v)[size_t(k)] = r.lo + (r.hi - r.lo) * rng.unit();
    F* o = makeDim<F>(m2, 1);
    sutOp([&] {
      if (withArg) b.fnArg(v, arg, o);
      else b.fn(v, o);
    });
    unmake(v);
    unmake(o);
    probe("problem of other dimensions before");
  };
  for (int i = 0; i < others; i++) strange();
  uint64_t h = 1;
  for (int i = 0; i < P; i++) {
    F* out = f[size_t(i)];
    sutOp([&] { call(i, out); });
    Vec y = outOf(*out);
    want.push_back(y);
    h = vhash(y, h);
    if (int(y.size()) != m) {
      fail("C21:size", "%s yields %zu objectives instead of %d", b.name, y.size(), m);
      return;
    }
    if (!same(content(*x[size_t(i)]), xs[size_t(i)])) fail("C21:pure", "%s changes its variable", b.name);
    for (int k = 0; k < m; k++)
      if (!std::isfinite(y[size_t(k)])) {
        fail("C21:finite", "objective %d of %s is %g at %s", k, b.name, y[size_t(k)], show(xs[size_t(i)]).c_str());
        return;
      }
    if (r.radius) {
      double q = 0;
      for (double v : y) q += v * v;
      const double want = r.radius(xs[size_t(i)], m);
      if (!(std::fabs(std::sqrt(q) - want) <= 3e-6 * std::max(1.0, want))) {
        fail("C21:value", "%s yields %s, at distance %g instead of %g from the origin, at %s", b.name, show(y).c_str(), std::sqrt(q), want, show(xs[size_t(i)]).c_str());
        return;
      }
    }
    if (r.ref) {
      Vec e = r.ref(xs[size_t(i)], m);
      if (r.bound) {
        bool close = false, violated = false, worse = false, better = false;
        for (double g : r.bound(xs[size_t(i)], m)) close = close || std::fabs(g) < 1e-9, violated = violated || g > 0;
        if (close) continue;
        for (int k = 0; k < m; k++) worse = worse || y[size_t(k)] > e[size_t(k)] + 1, better = better || y[size_t(k)] < e[size_t(k)] - 1e-6;
        if (violated && (!worse || better)) {
          fail("C21:value", "%s yields %s at %s, which violates a constraint; without penalty it would be %s", b.name, show(y).c_str(), show(xs[size_t(i)]).c_str(), show(e).c_str());
          return;
        }
        probe(violated ? "bench_infeasible" : "bench_feasible");
        if (violated) continue;
      }
      for (int k = 0; k < m; k++) {
        const double d = std::fabs(e[size_t(k)] - y[size_t(k)]);
        double scale = 1;
        for (double q : e) scale = std::max(scale, std::fabs(q));
        if (!(d <= 3e-6 * scale)) {
          fail("C21:value", "objective %d of %s is %.17g instead of %.17g at %s", k, b.name, y[size_t(k)], e[size_t(k)], show(xs[size_t(i)]).c_str());
          return;
        }
      }
    }
  }
  hist("values", h);
  // again, with other contents of the result and of the stack, in another order
  for (int k = 0; k < P; k++) {
    const int i = int(rng.below(uint64_t(P)));
    if (others) strange();
    F* out = makeDim<F>(m, k & 1 ? -7.25 : 0);
    sutOp([&] { call(i, out); });
    if (!same(outOf(*out), want[size_t(i)])) {
      fail("C21:pure", "%s called again at %s yields %s instead of %s", b.name, show(xs[size_t(i)]).c_str(), show(outOf(*out)).c_str(), show(want[size_t(i)]).c_str());
      unmake(out);
      break;
    }
    unmake(out);
  }
  // all points at once
  const int team = param("team", 1, 6, 3), chunk = param("chunk", 1, 3, 1);
  for (F* o : f) {
    if constexpr (std::is_floating_point_v<F>) *o = 5;
    else
      for (long k = 0; k < long(o->size()); k++) (*o)[size_t(k)] = 5;
  }
  set_configured_threads(team);
  sut([&] {
#ifdef _OPENMP
#pragma omp parallel for schedule(dynamic, chunk) num_threads(team)
#endif
    for (int i = 0; i < P; i++) {
      preempt_point();
      call(i, f[size_t(i)]);
    }
  });
  (void)chunk;
  set_configured_threads(0);
  for (int i = 0; i < P; i++)
    if (!same(outOf(*f[size_t(i)]), want[size_t(i)])) {
      fail("C21:pure", "%s called by several threads at once yields %s instead of %s at %s", b.name, show(outOf(*f[size_t(i)])).c_str(), show(want[size_t(i)]).c_str(), show(xs[size_t(i)]).c_str());
      break;
    }
  for (V* v : x) unmake(v);
  for (F* o : f) unmake(o);
  unmake(arg);
}
// two containers, one function: the values agree
template <class V1, class F1, class V2, class F2>
void benchPair(const Bench<V1, F1>& a, const Bench<V2, F2>& b, int n, int m) {
  const BenchRef& r = *benchRef(a.name);
  Rng rng(hcomb(case_seed(), 0xBE7D));
  V1* x = makeDim<V1>(n, 0);
  V2* y = makeDim<V2>(n, 0);
  for (int k = 0; k < n; k++) (*x)[size_t(k)] = (*y)[size_t(k)] = r.lo + (r.hi - r.lo) * rng.unit();
  F1* f = makeDim<F1>(m, 3);
  F2* g = makeDim<F2>(m, 4);
  phase(a.name);
  sutOp([&] { a.fn(x, f); });
  sutOp([&] { b.fn(y, g); });
  Vec p = outOf(*f), q = outOf(*g);
  for (int k = 0; k < m && p.size() == q.size(); k++) {
    double scale = 1;
    for (double d : p) scale = std::max(scale, std::fabs(d));
    if (!(std::fabs(p[size_t(k)] - q[size_t(k)]) <= 3e-6 * scale)) {
      fail("C21:container", "%s yields %s for one kind of container and %s for another at %s", a.name, show(p).c_str(), show(q).c_str(), show(content(*x)).c_str());
      break;
    }
  }
  unmake(x);
  unmake(y);
  unmake(f);
  unmake(g);
}

#define B_ARG(V, F, fn) \
  Bench<V, F> { heu::testFunctions<V, F, void>::fn, heu::testFunctions<V, F, BArg>::fn, #fn }

template <class V>
std::vector<Bench<V, double>> benchSo2() {
  return {B_ARG(V, double, ackley), B_ARG(V, double, beale), B_ARG(V, double, GoldsteinPrice), B_ARG(V, double, booth), B_ARG(V, double, bukin),
          B_ARG(V, double, matyas), B_ARG(V, double, levy), B_ARG(V, double, himmelblau), B_ARG(V, double, threeHumpCamel), B_ARG(V, double, easom),
          B_ARG(V, double, crossInTray), B_ARG(V, double, eggHolder), B_ARG(V, double, holderTable), B_ARG(V, double, McCormick),
          B_ARG(V, double, schaffer2), B_ARG(V, double, schaffer4)};
}
template <class V>
std::vector<Bench<V, double>> benchSoX() {
  return {B_ARG(V, double, rastrigin), B_ARG(V, double, sphere), B_ARG(V, double, rosenbrock), B_ARG(V, double, styblinskiTang)};
}
template <class V, class F>
std::vector<Bench<V, F>> benchMo12() {
  return {B_ARG(V, F, Schaffer1), B_ARG(V, F, Schaffer2)};
}
template <class V, class F>
std::vector<Bench<V, F>> benchMo22() {
  return {B_ARG(V, F, BinhKorn), B_ARG(V, F, ChangkongHaimes), B_ARG(V, F, Poloni)};
}
template <class V, class F>
std::vector<Bench<V, F>> benchMo23() {
  return {B_ARG(V, F, viennet)};
}
template <class V, class F>
std::vector<Bench<V, F>> benchMoX2() {
  return {B_ARG(V, F, FonsecaFleming), B_ARG(V, F, Kursawe)};
}
template <class V, class F>
void dtlz4d(const V* x, F* f) {
  heu::testFunctions<V, F, void>::template DTLZ4<>(x, f);
}
template <class V, class F>
void dtlz4a(const V* x, const BArg* a, F* f) {
  heu::testFunctions<V, F, BArg>::template DTLZ4<>(x, a, f);
}
template <class V, class F>
void dtlz4k(const V* x, F* f) {
  heu::testFunctions<V, F, void>::template DTLZ4<3>(x, f);
}
template <class V, class F>
std::vector<Bench<V, F>> benchDtlz() {
  return {B_ARG(V, F, DTLZ1), B_ARG(V, F, DTLZ2), B_ARG(V, F, DTLZ3), Bench<V, F>{dtlz4d<V, F>, dtlz4a<V, F>, "DTLZ4"}, Bench<V, F>{dtlz4k<V, F>, nullptr, "DTLZ4<3>"},
          B_ARG(V, F, DTLZ5), B_ARG(V, F, DTLZ6), B_ARG(V, F, DTLZ7), B_ARG(V, F, DTLZ8), B_ARG(V, F, DTLZ9)};
}
// a case: one function of a list, and the same function on another container
template <class L1, class L2>
void benchCase(const L1& a, const L2& b, int n, int m) {
  const size_t k = size_t(param("fn", 0, int(a.size()) - 1, 0));
  benchRun(a[k], n, m);
  benchPair(a[k], b[k], n, m);
}
}  // namespace hx
