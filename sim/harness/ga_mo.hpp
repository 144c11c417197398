// Traits of the multi-objective genetic solvers.
#pragma once
#include "ga_tr.hpp"

namespace hx {
// reference points as columns
void checkLattice(const std::vector<Vec>& pts, int M, int prec, int inner);
struct NicheMember {
  Vec fit;
  int dom = 0;
  bool kept = false;
  Vec t;          // normalised objectives as the solver has them (kept ones only)
  long ref = -1;  // its reference point (kept ones only)
};
void checkNiches(std::vector<NicheMember> c, const std::vector<Vec>& refs, size_t K);


template <class S>
std::vector<Vec> refPoints(const S& s) {
  std::vector<Vec> r;
  const auto& m = s.referencePoints();
  for (long j = 0; j < m.cols(); j++) {
    Vec v;
    for (long i = 0; i < m.rows(); i++) v.push_back(m(i, j));
    r.push_back(v);
  }
  return r;
}

// Kind: 2 crowding sorter, 3 reference points, 4 reference points in two layers. N: objectives (-1: set at run time)
template <class V, class Box_, bool Rect, int Kind, int N, bool Less, bool RecF, bool Static>
struct MoTraits {
  using Var = V;
  using Box = Box_;
  using A = typename ArgsOf<Box>::type;
  using Fit = Eigen::Array<double, N, 1>;
  using F = Fn<V, A, Fit>;
  static constexpr bool less = Less, rec = RecF, mo = true;
  static constexpr int nsga = Kind == 2 ? 2 : 3, method = -1;
  static constexpr auto fo = Less ? heu::FITNESS_LESS_BETTER : heu::FITNESS_GREATER_BETTER;
  static constexpr auto ro = RecF ? heu::RECORD_FITNESS : heu::DONT_RECORD_FITNESS;
  static constexpr auto rp = Kind == 4 ? heu::ReferencePointOption::DOUBLE_LAYER : heu::ReferencePointOption::SINGLE_LAYER;
  static_assert(Kind == 2 || Less);
  template <int K, bool St, class = void>
  struct Pick;
  template <class U>
  struct Pick<2, false, U> {
    using type = heu::NSGA2<V, N, fo, ro, A>;
  };
  template <class U>
  struct Pick<2, true, U> {
    using type = heu::NSGA2<V, N, fo, ro, A, F::init, F::fit, F::cross, F::mut>;
  };
  template <class U>
  struct Pick<3, false, U> {
    using type = heu::NSGA3<V, N, ro, rp, A>;
  };
  template <class U>
  struct Pick<3, true, U> {
    using type = heu::NSGA3<V, N, ro, rp, A, F::init, F::fit, F::cross, F::mut>;
  };
  using Solver = typename Pick<nsga, Static>::type;
  static void setup(Solver& s, const GaCfg& c) {
    giveFunctions<Solver, A, F, Static>(s);
    giveArgs<Solver, V, Box, Rect>(s, c);
    if constexpr (N < 0) s.setObjectiveNum(c.M);
    if constexpr (Kind == 3) s.setReferencePointPrecision(size_t(c.prec));
    if constexpr (Kind == 4) s.setReferencePointPrecision(size_t(c.prec2), size_t(c.prec));
  }
  static void precisions(const std::string& P, GaCfg& c, Rng* co) {
    auto in = [&](const char* n, int lo, int hi, int calm) -> int {
      if (co) return lo + int(co->below(uint64_t(hi - lo + 1)));
      return param((P + n).c_str(), lo, hi, calm);
    };
    if constexpr (N > 0) c.M = N;
    else c.M = c.extent == EX_OBJECTIVES ? in("Mmany", 6, Kind == 3 || Kind == 4 ? 10 : HEU_MAX_RUNTIME_OBJNUM, 8) : in("M", 2, 5, 2);
    if constexpr (Kind == 3) c.prec = in("prec", 1, c.M > 5 ? 2 : c.M > 3 ? 4 : 7, 2);
    if constexpr (Kind == 4) {
      c.prec = in("prec", 2, c.M > 3 ? 3 : 5, 2);
      c.prec2 = in("prec2", 2, c.M > 3 ? 3 : 5, 2);
    }
    if constexpr (Kind == 3 || Kind == 4) {
      // now and then as fine as the literature's settings, where factorials leave 64 bits
      if (c.M <= 3 && c.extent == EX_NONE && in("fine", 0, 11, 0) == 11)
        (Kind == 4 && in("finePart", 0, 1, 0) ? c.prec2 : c.prec) = in("finePrec", 17, c.M == 2 ? 70 : 24, 19);
    }
  }
  static void companyShape(GaCfg& c, Rng& r) {
    shapeOf<V, Box, Rect>("", c, &r);
    precisions("", c, &r);
  }
  static void shape(GaShape& s) {
    s.maxPop = 30;
    s.niches = Kind != 2;
  }
  static void drawShape(const std::string& P, GaCfg& c) {
    shapeOf<V, Box, Rect>(P, c, nullptr);
    precisions(P, c, nullptr);
  }
  template <class S>
  static void checkNiching(const S& s, const std::vector<Snap>& cand, const std::vector<int>& dom, const std::vector<Snap>& after, size_t K, bool known) {
    const auto refs = refPoints(s);
    checkLattice(refs, gaCfg.M, gaCfg.prec, Kind == 4 ? gaCfg.prec2 : 0);
    if (!known || cand.size() <= K || after.size() != K || failures()) return;
    std::vector<int> sorted = dom;
    std::sort(sorted.begin(), sorted.end());
    if (sorted[K] != sorted[K - 1]) return;
    // kept candidates: what the solver noted about them
    std::unordered_map<uint64_t, std::vector<std::pair<Vec, long>>> notes;
    for (const auto& g : s.population()) {
      Vec f = content(g.fitness);
      notes[vhash(f, vhash(content(g.decision_variable)))].push_back({content(g.translatedFitness), long(g.closestRefPoint)});
    }
    std::vector<NicheMember> c(cand.size());
    for (size_t i = 0; i < cand.size(); i++) {
      c[i].fit = cand[i].fit;
      c[i].dom = dom[i];
      auto it = notes.find(cand[i].key);
      if (it != notes.end() && !it->second.empty()) {
        c[i].kept = true;
        c[i].t = it->second.back().first;
        c[i].ref = it->second.back().second;
        it->second.pop_back();
      }
    }
    checkNiches(std::move(c), refs, K);
  }
};
}  // namespace hx
