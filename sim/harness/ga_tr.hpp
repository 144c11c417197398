// Traits of the genetic solvers under test: variable types, boxes, argument objects, selectors.
#pragma once
#include "ga.hpp"

namespace hx {
// an argument object that carries a box and a recognisable payload
template <class Box>
struct BoxArgs : public Box {
  uint64_t tag = 0;
  std::vector<double> payload;
};
template <class A>
void sign(A& a, uint64_t tag) {
  a.tag = tag;
  a.payload = {double(tag % 1000), 1.0, double(tag % 77)};
}
template <class T, class = void>
struct HasDelta : std::false_type {};
template <class T>
struct HasDelta<T, std::void_t<decltype(std::declval<T&>().delta())>> : std::true_type {};

template <class V>
constexpr bool kDyn = !heu::array_traits<V>::isFixedSize;
template <class V>
constexpr bool kMatrix = !heu::array_traits<V>::isVector;
// dimensions of dynamic matrices: dim x 2
template <class V>
V filled(const Vec& v, int dim) {
  V r;
  if constexpr (kDyn<V>) {
    if constexpr (kMatrix<V>) r.resize(dim / 2, 2);
    else r.resize(size_t(dim));
  }
  for (size_t i = 0; i < size_t(r.size()); i++) r.data()[i] = typename heu::array_traits<V>::Scalar_t(v[i % v.size()]);
  return r;
}
template <class V, class Box, bool Rect>
void fillBox(Box& b, const GaCfg& c) {
  using T = typename heu::array_traits<V>::Scalar_t;
  if constexpr (kDyn<V>) {
    if constexpr (kMatrix<V>) b.setDimensions(c.dim / 2, 2);
    else b.setDimensions(c.dim);
  }
  if constexpr (!std::is_same_v<T, bool>) {
    if constexpr (Rect) b.setRange(filled<V>(c.lo, c.dim), filled<V>(c.hi, c.dim));
    else b.setRange(T(c.lo[0]), T(c.hi[0]));
    if constexpr (HasDelta<Box>::value) {
      if constexpr (Rect) b.setDelta(filled<V>(c.step, c.dim));
      else b.setDelta(T(c.step[0]));
    }
  }
}
// the box of one configuration: from parameters, or at random for company solvers
void drawBox(const std::string& pre, GaCfg& c, bool rect, bool discrete, bool boolean, Rng* co);

template <class V, bool Rect>
using CBox = heu::ContinousBox<V, Rect ? heu::BoxShape::RECTANGLE_BOX : heu::BoxShape::SQUARE_BOX>;
template <class V, bool Rect>
using DBox = heu::DiscretBox<V, Rect ? heu::BoxShape::RECTANGLE_BOX : heu::BoxShape::SQUARE_BOX>;

// ---- user functions, with and without an argument object
template <class V, class A, class F>
struct Fn {
  static constexpr bool hasArgs = true;
  static void init(V* v, const A* a) {
    checkArgs(a, curCfg().tag);
    heu::GADefaults<V, A>::template iFun<>(v, a);
    recordInit(v);
  }
  static void fit(const V* v, const A* a, F* f) {
    checkArgs(a, curCfg().tag, true);
    objective<V, F>(v, f);
  }
  static void cross(const V* p1, const V* p2, V* c1, V* c2, const A* a) {
    checkArgs(a, curCfg().tag);
    crossBody(p1, p2, c1, c2);
  }
  static void mut(const V* s, V* d, const A* a) {
    checkArgs(a, curCfg().tag);
    mutBody(s, d, [&] { heu::GADefaults<V, A>::template mFun<>(s, d, a); });
  }
};
template <class V, class F>
struct Fn<V, void, F> {
  static constexpr bool hasArgs = false;
  static void init(V* v) {
    const int n = curCfg().dim;
    if constexpr (kDyn<V>) {
      v->resize(size_t(n));
      for (int i = 0; i < n; i++) (*v)[size_t(i)] = heu::randD();
    } else if constexpr (std::is_floating_point_v<typename heu::array_traits<V>::Scalar_t>) {
      heu::GADefaults<V, void>::template iFunNd<>(v);
    }
    recordInit(v);
  }
  static void fit(const V* v, F* f) { objective<V, F>(v, f); }
  static void cross(const V* p1, const V* p2, V* c1, V* c2) { crossBody(p1, p2, c1, c2); }
  static void mut(const V* s, V* d) {
    mutBody(s, d, [&] {
      *d = *s;
      const double st = curCfg().step[0];
      const size_t i = size_t(heu::randIdx(int(s->size())));
      double x = (*d)[i] + heu::randD(-st, st);
      (*d)[i] = std::min(1.0, std::max(0.0, x));
    });
  }
};

template <class V, class Box, bool Rect>
void shapeOf(const std::string& P, GaCfg& c, Rng* co) {
  using T = typename heu::array_traits<V>::Scalar_t;
  if constexpr (kDyn<V>) {
    int d = co ? 1 + int(co->below(5)) : c.extent == EX_COMPONENTS ? param((P + "dims").c_str(), 20, 300, 33) : param((P + "dim").c_str(), 1, 6, 2);
    c.dim = kMatrix<V> ? 2 * d : d;
  } else {
    c.dim = heu::array_traits<V>::sizeCT;
  }
  if constexpr (std::is_same_v<Box, void>) {
    c.lo = {0};
    c.hi = {1};
    c.step = {0.2};
    c.discrete = false;
  } else {
    c.eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
    drawBox(P, c, Rect, std::is_integral_v<T>, std::is_same_v<T, bool>, co);
    if constexpr (std::is_same_v<T, float>)
      for (Vec* v : {&c.lo, &c.hi, &c.step})
        for (double& d : *v) d = float(d);
  }
  c.eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
}

// ---- single-objective
template <class Box>
struct ArgsOf {
  using type = BoxArgs<Box>;
};
template <>
struct ArgsOf<void> {
  using type = void;
};
template <class S, class A, class F, bool Static>
void giveFunctions(S& s) {
  if constexpr (!Static) {
    s.setiFun(F::init);
    s.setfFun(F::fit);
    s.setcFun(F::cross);
    s.setmFun(F::mut);
  }
}
template <class S, class V, class Box, bool Rect>
void giveArgs(S& s, const GaCfg& c) {
  if constexpr (!std::is_same_v<Box, void>) {
    typename ArgsOf<Box>::type a;
    fillBox<V, Box, Rect>(a, c);
    sign(a, c.tag);
    s.setArgs(a);
  }
}
template <class V, class Box_, bool Rect, bool Less, bool RecF, int Method, bool Static>
struct SoTraits {
  using Var = V;
  using Box = Box_;
  using A = typename ArgsOf<Box>::type;
  using F = Fn<V, A, double>;
  static constexpr bool less = Less, rec = RecF, mo = false;
  static constexpr int nsga = 0, method = Method;
  static constexpr auto fo = Less ? heu::FITNESS_LESS_BETTER : heu::FITNESS_GREATER_BETTER;
  static constexpr auto ro = RecF ? heu::RECORD_FITNESS : heu::DONT_RECORD_FITNESS;
  static constexpr auto sm = Method < 0 ? SelectMethod::RunTimeSelectMethod : SelectMethod(Method);
  template <bool St, class = void>
  struct Pick {
    using type = heu::SOGA<V, fo, ro, sm, A>;
  };
  template <class U>
  struct Pick<true, U> {
    using type = heu::SOGA<V, fo, ro, sm, A, F::init, F::fit, F::cross, F::mut>;
  };
  using Solver = typename Pick<Static>::type;
  static void setup(Solver& s, const GaCfg& c) {
    giveFunctions<Solver, A, F, Static>(s);
    giveArgs<Solver, V, Box, Rect>(s, c);
    if constexpr (Method < 0) s.setSelectMethod(SelectMethod(c.method));
    if constexpr (Method < 0 || sm == SelectMethod::Tournament) s.setTournamentSize(c.tsize);
    if constexpr (Method < 0 || sm == SelectMethod::LinearRank) s.setLinearSelectProbability(c.linW, c.linB);
    if constexpr (Method < 0 || sm == SelectMethod::ExponentialRank) s.setExponetialSelectBase(c.expC);
    if constexpr (Method < 0 || sm == SelectMethod::Boltzmann)
      if (c.setBolt) s.setBoltzmannSelectStrength(Less ? -c.bolt : c.bolt);
    if constexpr (Method < 0 || sm == SelectMethod::EliteReserved) s.setEliteNum(c.elite);
  }
  static void companyShape(GaCfg& c, Rng& r) { shapeOf<V, Box, Rect>("", c, &r); }
  static void shape(GaShape&) {}
  static void drawShape(const std::string& P, GaCfg& c) {
    c.M = 1;
    shapeOf<V, Box, Rect>(P, c, nullptr);
  }
};
}  // namespace hx
