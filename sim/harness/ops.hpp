// Boxes, initialisation, mutation and crossover operators driven directly, without a solver.
#pragma once
#include "aos.hpp"

namespace hx {
struct OpStat {
  const char* name;
  double p;
  long n = 0, k = 0;
};
void checkRate(const OpStat& s, const char* cls);

enum { OB_CONT, OB_DISC, OB_BOOL, OB_FIXED_D, OB_FIXED_C, OB_GAUSS };

template <class V, class Box_, int Kind, bool Rect>
struct OpTraits {
  using Var = V;
  using Box = Box_;
  static constexpr int kind = Kind;
  static constexpr bool rect = Rect;
};
template <class V, class Box>
void fillFixed(GaCfg& c, const Box& b) {
  c.lo = {double(b.min(0))};
  c.hi = {double(b.max(0))};
}

// bounds at the ends of what the component type can hold
template <class T>
void integerBox(GaCfg& c) {
  // 64 bits: as far as a double tells whole numbers apart
  const double least = std::max(double(std::numeric_limits<T>::min()), -4503599627370496.0);
  const double most = std::min(double(std::numeric_limits<T>::max()), 4503599627370496.0);
  const int ends = param("ends", 0, 9, 0);
  for (size_t i = 0; i < c.lo.size(); i++) {
    double &lo = c.lo[i], &hi = c.hi[i];
    const double w = hi - lo;
    switch (ends) {
      case 6: lo = least, hi = most; break;
      case 7: lo = most - w, hi = most; break;
      case 8: lo = least, hi = least + w; break;
      case 9: lo = 0, hi = most; break;
      default:
        if (lo < least) lo = least, hi = lo + w;
    }
  }
  if (ends >= 6) probe("box up to the end of the type");
}

template <class Tr>
void opsScenario() {
  using V = typename Tr::Var;
  using Box = typename Tr::Box;
  using T = typename heu::array_traits<V>::Scalar_t;
  constexpr int K = Tr::kind;
  using Args = BoxArgs<Box>;
  using DA = heu::GADefaults<V, Args>;
  using D0 = heu::GADefaults<V, void>;
  GaCfg& c = gaCfg;
  c = GaCfg();
  if constexpr (kDyn<V>) {
    int d = drawSize("dim", 1, 9, 2, 300);
    c.dim = kMatrix<V> ? 2 * d : d;
  } else
    c.dim = heu::array_traits<V>::sizeCT;
  Args& a = *make<Args>();
  if constexpr (K == OB_FIXED_D || K == OB_FIXED_C) {
    fillFixed<V>(c, a);
    if constexpr (kMatrix<V> && kDyn<V>) a.setDimensions(c.dim / 2, 2);
    else if constexpr (kDyn<V>) a.setDimensions(c.dim);
    c.discrete = std::is_integral_v<T>;
    if constexpr (K == OB_FIXED_C) c.step = {double(a.delta())};
    else c.step = {1};
  } else {
    c.eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
    drawBox("", c, Tr::rect, K == OB_DISC, K == OB_BOOL, nullptr);
    if constexpr (K == OB_DISC) integerBox<T>(c);
    if constexpr (K == OB_CONT)
      if (param("whole", 0, 9, 0) == 9) {  // every number of the type
        probe("whole type in a box");
        for (double& v : c.lo) v = double(std::numeric_limits<T>::lowest());
        for (double& v : c.hi) v = double(std::numeric_limits<T>::max());
      }
    if constexpr (std::is_same_v<T, float>)
      for (Vec* v : {&c.lo, &c.hi, &c.step})
        for (double& d : *v) d = float(d);
    if constexpr (K == OB_GAUSS) {
      a.setMu(T(c.lo[0]));
      a.setSigma(T(c.hi[0] - c.lo[0]));
      a.setDelta(T(c.step[0]));
      if constexpr (kMatrix<V> && kDyn<V>) a.setDimensions(c.dim / 2, 2);
      else if constexpr (kDyn<V>) a.setDimensions(c.dim);
      c.lo = {-kInf};
      c.hi = {kInf};
    } else
      sutOp([&] { fillBox<V, Box, Tr::rect>(a, c); });
  }
  c.eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
  sign(a, 7);
  const int rounds = param("rounds", 1, 120, 5);
  V &x = *make<V>(), &y = *make<V>(), &u = *make<V>(), &w = *make<V>();
  Rng r(hcomb(case_seed(), 0x0b5));
  std::vector<OpStat> st = {{"taking a component from the first parent in cFunRand", 0.5, 0, 0},
                            {"taking a component from the first parent in cFunRand<1/10>", 0.1, 0, 0},
                            {"changing the first component in applyDelta", 1.0 / c.dim, 0, 0},
                            {"an increase in applyDelta", 0.5, 0, 0},
                            {"more than half of the step in applyDelta", 0.5, 0, 0},
                            {"initialising in the middle half of the box", 0.5, 0, 0},
                            {"initialising below the mean of the distribution", 0.5, 0, 0},
                            {"initialising within the standard deviation of the distribution", 0.682689492, 0, 0}};
  uint64_t h = 1;
  long lowHalf = 0, halves = 0;
  double below = 0, var = 0, evens = 0, evenVar = 0;
  for (int i = 0; i < rounds; i++) {
    // ---- initialisation, in memory that held something else before
    phase("initialise");
    sutOp([&] { DA::template iFun<>(&x, &a); });
    Vec x0 = content(x);
    checkBox(x0, c, "initialised variable");
    for (size_t k = 0; k < x0.size(); k++) {
      const double lo = c.lo[k % c.lo.size()], hi = c.hi[k % c.hi.size()];
      if (std::isfinite(lo) && !c.discrete) {
        halves++;
        lowHalf += x0[k] < (lo + hi) / 2;
        const bool wide = (K == OB_CONT || K == OB_FIXED_C) && hi - lo > 1e-3 * (std::fabs(lo) + std::fabs(hi));
        st[5].n += wide;
        st[5].k += wide && std::fabs(x0[k] - (lo + hi) / 2) < (hi - lo) / 4;
      }
      if constexpr (K == OB_GAUSS) {
        st[6].n++, st[7].n++;
        st[6].k += x0[k] < double(a.mu());
        st[7].k += std::fabs(x0[k] - double(a.mu())) < double(a.sigma());
      }
      if (c.discrete) {
        const double mid = std::floor((lo + hi) / 2), p = (mid - lo + 1) / (hi - lo + 1);
        below += (x0[k] <= mid) - p;
        var += p * (1 - p);
        const double even = (std::floor((hi - lo) / 2) + 1) / (hi - lo + 1);  // at an even distance from the lower end
        evens += (std::fmod(x0[k] - lo, 2) == 0) - even;
        evenVar += even * (1 - even);
      }
    }
    sutOp([&] { DA::template iFun<>(&y, &a); });
    Vec y0 = content(y);
    checkBox(y0, c, "initialised variable");
    h = vhash(x0, vhash(y0, h));
    // ---- mutation
    phase("mutate");
    sutOp([&] { DA::template mFun<>(&x, &u, &a); });
    Vec m = content(u);
    Rec::Mut mm;
    mm.src = x0;
    mm.src2 = content(x);
    mm.dst = m;
    checkMut(mm, c);
    checkBox(m, c, "mutant");
    h = vhash(m, h);
    if (m.size() == x0.size()) {
      size_t ch = 0, which = 0;
      for (size_t k = 0; k < m.size(); k++)
        if (dbits(m[k]) != dbits(x0[k])) ch++, which = k;
      if (ch > 1) fail("C15:many", "a mutation changed %zu components", ch);
      if (ch == 1) {
        st[2].n++;
        st[2].k += which == 0;
        const double lo = c.lo[which % c.lo.size()], hi = c.hi[which % c.hi.size()], d = c.step[which % c.step.size()];
        if (K != OB_BOOL && x0[which] - d >= lo && x0[which] + d <= hi) {
          st[3].n++;
          st[3].k += m[which] > x0[which];
          // where a step is coarse against the rounding of the variable itself
          if (!c.discrete && d > 1e-3 * (1 + std::fabs(x0[which]))) {
            st[4].n++;
            st[4].k += std::fabs(m[which] - x0[which]) > d / 2;
          }
        }
        if constexpr (K == OB_BOOL)
          if (m[which] != 1 - x0[which]) fail("C15:flip", "a boolean mutation turned %g into %g", x0[which], m[which]);
      } else if (K == OB_BOOL)
        fail("C15:flip", "a boolean mutation changed nothing");
    }
    // ---- crossover, both forms
    phase("crossover");
    for (int op = CX_BLEND; op <= CX_RAND2; op++) {
      if (std::is_integral_v<T> && (op == CX_BLEND || op == CX_BLEND2)) continue;
      if (!heu::array_traits<V>::isVector && op != CX_BLEND2 && op != CX_BLEND) continue;
      if (r.below(3)) continue;
      c.cross = op;
      V &p = *make<V>(), &q = *make<V>();
      sutOp([&] { p = x, q = y; });
      V &d1 = *make<V>(), &d2 = *make<V>();
      // the solver passes copies of nothing in particular: children of another size
      if (r.below(2)) sutOp([&] { d1 = u, d2 = u; });
      else if constexpr (kDyn<V> && !kMatrix<V>)
        if (op == CX_BLEND || op == CX_BLEND2 || op == CX_SWAP || op == CX_RAND || op == CX_RAND2) sutOp([&] { d1.resize(1), d2.resize(1); });
      const bool withArgs = r.below(2);
      sutOp([&] {
        if (!withArgs) {
          crossBody(&p, &q, &d1, &d2);
          return;
        }
        Rec::Cross k;
        {
          Pause z;
          k.p1 = x0, k.p2 = y0;
        }
        constexpr auto r13 = heu::DivEncode<1, 3>::code;
        constexpr auto r34 = heu::DivEncode<3, 4>::code;
        constexpr auto r110 = heu::DivEncode<1, 10>::code;
        (void)r13, (void)r34, (void)r110;
        if constexpr (!heu::array_traits<V>::isVector) {
          if constexpr (!std::is_integral_v<T>) {
            if (op == CX_BLEND2) DA::template cFunNd<r34>(&p, &q, &d1, &d2, &a);
            else DA::template cFunNd<>(&p, &q, &d1, &d2, &a);
          }
        } else if constexpr (!kDyn<V>) {
          if (op == CX_SWAP) DA::cFunSwapNs(&p, &q, &d1, &d2, &a);
          else if (op == CX_RAND) DA::template cFunRandNs<>(&p, &q, &d1, &d2, &a);
          else if (op == CX_RAND2) DA::template cFunRandNs<r110>(&p, &q, &d1, &d2, &a);
          if constexpr (!std::is_integral_v<T>) {
            if (op == CX_BLEND) DA::template cFunNd<>(&p, &q, &d1, &d2, &a);
            else if (op == CX_BLEND2) DA::template cFunNd<r34>(&p, &q, &d1, &d2, &a);
          }
        } else {
          if (op == CX_SWAP) DA::cFunSwapXs(&p, &q, &d1, &d2, &a);
          else if (op == CX_RAND) DA::template cFunRandXs<>(&p, &q, &d1, &d2, &a);
          else if (op == CX_RAND2) DA::template cFunRandXs<r110>(&p, &q, &d1, &d2, &a);
          if constexpr (!std::is_integral_v<T>) {
            if (op == CX_BLEND) DA::template cFunXd<>(&p, &q, &d1, &d2, &a);
            else if (op == CX_BLEND2) DA::template cFunXd<r13>(&p, &q, &d1, &d2, &a);
          }
        }
        {
          Pause z;
          k.q1 = content(p), k.q2 = content(q), k.c1 = content(d1), k.c2 = content(d2);
          checkCross(k, op, blendRate<V>(op), c);
          k = Rec::Cross();
        }
      });
      Vec e1 = content(d1), e2 = content(d2);
      if (K != OB_GAUSS) {
        checkBox(e1, c, "child");
        checkBox(e2, c, "child");
      }
      if ((op == CX_RAND || op == CX_RAND2) && e1.size() == x0.size() && e2.size() == x0.size())
        for (size_t k = 0; k < e1.size(); k++)
          if (x0[k] != y0[k]) {
            OpStat& s = st[op == CX_RAND2];
            s.n += 2;
            s.k += (e1[k] == x0[k]) + (e2[k] == y0[k]);
          }
      h = vhash(e1, vhash(e2, h));
      probe("crossover alone");
      unmake(&p);
      unmake(&q);
      unmake(&d1);
      unmake(&d2);
    }
    // ---- back into the box
    phase("constrain");
    if constexpr (K != OB_BOOL) {
      sutOp([&] { w = x; });
      Vec far = x0;
      for (size_t k = 0; k < far.size(); k++) {
        const double lo = c.lo[k % c.lo.size()], hi = c.hi[k % c.hi.size()], wd = std::isfinite(lo) ? hi - lo : 10;
        switch (r.below(7)) {
          case 0: far[k] = (std::isfinite(lo) ? lo : 0) - wd * 3; break;
          case 1: far[k] = (std::isfinite(hi) ? hi : 0) + wd * 3; break;
          case 2: far[k] = std::isfinite(lo) ? lo : -5; break;
          case 3: far[k] = std::isfinite(hi) ? hi : 5; break;
          case 4: far[k] = -double(std::numeric_limits<T>::max()); break;
          case 5: far[k] = std::is_integral_v<T> ? std::min(9e15, double(std::numeric_limits<T>::max())) : double(std::numeric_limits<T>::infinity()); break;
          default: break;
        }
        if constexpr (std::is_integral_v<T>) far[k] = std::max(double(std::numeric_limits<T>::min()), std::min(std::min(9e15, double(std::numeric_limits<T>::max())), far[k]));
        w.data()[k] = T(far[k]);
        far[k] = double(w.data()[k]);
      }
      const bool single = r.below(2);
      const int at = int(r.below(uint64_t(far.size())));
      sutOp([&] {
        if (single) a.applyConstraint(&w, at);
        else a.applyConstraint(&w);
      });
      Vec got = content(w);
      for (size_t k = 0; k < far.size() && k < got.size(); k++) {
        const double lo = c.lo[k % c.lo.size()], hi = c.hi[k % c.hi.size()];
        const double want = single && int(k) != at ? far[k] : std::max(lo, std::min(hi, far[k]));
        if (dbits(got[k]) != dbits(want)) {
          fail("C14:constrain", "component %zu at %.17g was limited to %.17g, the box is [%.17g, %.17g]", k, far[k], got[k], lo, hi);
          break;
        }
      }
      probe("variable pulled back");
    }
  }
  hist("ops", h);
  if (!env.rngx && !c.coarse()) {
    for (size_t k = 0; k < st.size(); k++) checkRate(st[k], k < 5 ? "C15:rate" : "C14:spread");
    if (evenVar >= 25 && std::fabs(evens) > 9 * std::sqrt(evenVar))
      fail("C14:spread", "initialising at an even distance from the lower bound: %+g times more than expected, the standard deviation is %g", evens, std::sqrt(evenVar));
    if (var >= 25 && std::fabs(below) > 9 * std::sqrt(var))
      fail("C14:spread", "initialising in the lower half of the box: %+g times more than expected, the standard deviation is %g", below, std::sqrt(var));
    if (halves >= 200) {
      OpStat s{"initialising in the lower half of the box", 0.5, halves, lowHalf};
      checkRate(s, "C14:spread");
    }
  }
  stat("runs", 1);
  phase("destroy");
  unmake(&x);
  unmake(&y);
  unmake(&u);
  unmake(&w);
  unmake(&a);
}

// the initialisation functions that take their bounds as template arguments
template <class V>
void initNdScenario() {
  using D0 = heu::GADefaults<V, void>;
  using T = typename heu::array_traits<V>::Scalar_t;
  const int rounds = param("rounds", 1, 60, 5);
  const int dim = kDyn<V> ? drawSize("dim", 1, 9, 2, 300) : int(heu::array_traits<V>::sizeCT);
  V& x = *make<V>();
  if constexpr (kDyn<V>) sutOp([&] { x.resize(size_t(dim)); });
  GaCfg c;
  c.dim = dim;
  c.eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
  uint64_t h = 3;
  for (int i = 0; i < rounds; i++) {
    phase("initialise");
    sutOp([&] { D0::template iFunNd<>(&x); });
    c.lo = {0}, c.hi = {1};
    checkBox(content(x), c, "variable of iFunNd");
    h = vhash(content(x), h);
    sutOp([&] { D0::template iFunNd<heu::DivEncode<-3, 2>::code, heu::DivEncode<7, 4>::code>(&x); });
    c.lo = {-1.5}, c.hi = {1.75};
    checkBox(content(x), c, "variable of iFunNd");
    h = vhash(content(x), h);
    sutOp([&] { D0::template iFunNf<heu::DivEncode<1, 2>::code, heu::DivEncode<3, 1>::code>(&x); });
    c.lo = {0.5}, c.hi = {3};
    checkBox(content(x), c, "variable of iFunNf");
    h = vhash(content(x), h);
  }
  hist("nd", h);
  unmake(&x);
}
}  // namespace hx
