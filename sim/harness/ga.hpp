// Workload and oracles for the genetic solvers. A traits class Tr describes one solver type:
//   Solver, Var, less (bool), rec (bool), mo (bool), nsga (0,2,3), method (-1: set at run time)
//   hasArgs; static void setup(Solver&, const GaCfg&); box bounds lo(i), hi(i), step(i), discrete
#pragma once
#include "common.hpp"

namespace hx {
using heu::SelectMethod;

struct GaCfg {
  int pop = 8, maxGen = 3, maxFail = 0;
  int extent = 0;  // EX_..: what is unusually large
  double cx = 0.8, mu = 0.05;
  int method = int(SelectMethod::EliteReserved);
  int elite = 1, tsize = 3;
  double linW = 0.1, linB = 0.9, expC = 0.8, bolt = 0;
  bool setBolt = false;
  int cross = 0;  // crossover operator
  int M = 1;      // objectives
  int dim = 3;
  int prec = 3, prec2 = 2;
  uint64_t tag = 1;
  Vec lo, hi, step;  // box per component
  bool discrete = false;
  double eps = 2.3e-16;  // of the component type
  int magnitude = 0;     // 1: denormal numbers, 2: huge ones, 3: a narrow box far from zero
  // a few of the smallest steps of the component type
  double tiny() const { return eps > 1e-10 ? 1.2e-44 : 4e-323; }
  // rounding leaves only a few places to go to
  bool coarse() const { return magnitude == 3 || (magnitude == 1 && eps > 1e-10); }
};
extern GaCfg gaCfg, gaCompanyCfg;
inline GaCfg& curCfg() { return inCompany ? gaCompanyCfg : gaCfg; }

// ------------------------------------------------------------------ user functions given to the solvers
enum { CX_BLEND = 0, CX_SWAP = 1, CX_RAND = 2, CX_BLEND2 = 3, CX_RAND2 = 4 };
template <class V>
void recordInit(const V* v) {
  Pause p;
  Rec& R = rec();
  if (R.on) R.born.push_back(content(*v));
}
template <class V>
void runCross(const V* p1, const V* p2, V* c1, V* c2, int kind) {
  using D = heu::GADefaults<V, void>;
  constexpr auto r13 = heu::DivEncode<1, 3>::code;
  constexpr auto r34 = heu::DivEncode<3, 4>::code;
  constexpr auto r110 = heu::DivEncode<1, 10>::code;
  (void)r13, (void)r34, (void)r110;
  if constexpr (!heu::array_traits<V>::isVector && std::is_integral_v<typename heu::array_traits<V>::Scalar_t>) {
    std::abort();  // no crossover of the library accepts a matrix of integers
  } else if constexpr (!heu::array_traits<V>::isVector) {  // only the blend accepts matrices
    if (kind == CX_BLEND2) D::template cFunNd<r34>(p1, p2, c1, c2);
    else D::template cFunNd<>(p1, p2, c1, c2);
  } else if constexpr (heu::array_traits<V>::isFixedSize) {
    switch (kind) {
      case CX_SWAP: D::cFunSwapNs(p1, p2, c1, c2); return;
      case CX_RAND: D::template cFunRandNs<>(p1, p2, c1, c2); return;
      case CX_RAND2: D::template cFunRandNs<r110>(p1, p2, c1, c2); return;
      default: break;
    }
    if constexpr (!std::is_integral_v<typename heu::array_traits<V>::Scalar_t>) {
      if (kind == CX_BLEND2) D::template cFunNd<r34>(p1, p2, c1, c2);
      else D::template cFunNd<>(p1, p2, c1, c2);
    } else
      D::cFunSwapNs(p1, p2, c1, c2);
  } else {
    switch (kind) {
      case CX_SWAP: D::cFunSwapXs(p1, p2, c1, c2); return;
      case CX_RAND: D::template cFunRandXs<>(p1, p2, c1, c2); return;
      case CX_RAND2: D::template cFunRandXs<r110>(p1, p2, c1, c2); return;
      default: break;
    }
    if constexpr (!std::is_integral_v<typename heu::array_traits<V>::Scalar_t>) {
      if (kind == CX_BLEND2) D::template cFunXd<r13>(p1, p2, c1, c2);
      else D::template cFunXd<>(p1, p2, c1, c2);
    } else
      D::cFunSwapXs(p1, p2, c1, c2);
  }
}
template <class V>
double blendRate(int kind) {
  if (kind == CX_BLEND2) return heu::array_traits<V>::isFixedSize || !heu::array_traits<V>::isVector ? 0.75 : 1.0 / 3;
  return 0.2;
}
void checkCross(const Rec::Cross& c, int kind, double blend, const GaCfg& cfg);
template <class V>
void crossBody(const V* p1, const V* p2, V* c1, V* c2) {
  Rec::Cross k;
  int kind;
  {
    Pause p;
    kind = curCfg().cross;
    if (std::is_integral_v<typename heu::array_traits<V>::Scalar_t> && (kind == CX_BLEND || kind == CX_BLEND2)) kind = CX_SWAP;
    if (!heu::array_traits<V>::isVector && kind != CX_BLEND2) kind = CX_BLEND;
    k.p1 = content(*p1);
    k.p2 = content(*p2);
  }
  runCross(p1, p2, c1, c2, kind);
  {
    Pause p;
    k.q1 = content(*p1);
    k.q2 = content(*p2);
    k.c1 = content(*c1);
    k.c2 = content(*c2);
    k.kind = kind;
    k.rate = blendRate<V>(kind);
    if (!inCompany) checkCross(k, kind, k.rate, curCfg());
    if (rec().on) rec().cross.push_back(k);
    k = Rec::Cross();
  }
}
void checkMut(const Rec::Mut& m, const GaCfg& c);
template <class V, class Op>
void mutBody(const V* src, V* dst, Op&& op) {
  Rec::Mut k;
  {
    Pause p;
    k.src = content(*src);
  }
  op();
  {
    Pause p;
    k.src2 = content(*src);
    k.dst = content(*dst);
    if (!inCompany) checkMut(k, curCfg());
    if (rec().on) rec().mut.push_back(k);
    k = Rec::Mut();
  }
}

// ------------------------------------------------------------------ population snapshots
template <class Tr, class G>
Vec fitOf(const G& g) {
  if constexpr (Tr::mo) {
    return content(g.fitness);
  } else {
    return Vec{g.fitness};
  }
}
template <class Tr, class S>
std::vector<Snap> snapPop(const S& s) {
  std::vector<Snap> r;
  r.reserve(s.population().size());
  for (const auto& g : s.population()) {
    Snap k;
    k.addr = &g;
    k.x = content(g.decision_variable);
    k.computed = g.is_fitness_computed;
    if (k.computed) k.fit = fitOf<Tr>(g);
    k.keys();
    r.push_back(std::move(k));
  }
  return r;
}
bool dominates(const Vec& a, const Vec& b, bool greater);
std::vector<int> dominatedCounts(const std::vector<Snap>& c, bool greater);
void checkInclusion(const std::vector<Snap>& cand, const std::vector<Snap>& after, size_t K, bool mayCopy);
void checkCrowding(const std::vector<Snap>& cand, const std::vector<int>& dom, const std::vector<Snap>& after, size_t K, bool greater);
void checkBox(const Vec& x, const GaCfg& c, const char* what);
void checkVariation(const std::vector<Snap>& surv, const std::vector<Snap>& now, const GaCfg& cfg, Rec& R);
void checkEvaluated(const std::vector<Snap>& pop, const Land& L, const char* when);
void checkCalls(Rec& R, std::vector<Vec> expect, const char* when);
void checkSoSelection(const std::vector<Snap>& cand, const std::vector<Snap>& after, const GaCfg& cfg, int method, bool greater);

template <class Tr>
struct GaHarness : ObsBase {
  using S = typename Tr::Solver;
  S* s = nullptr;
  bool inited = false;
  std::vector<Snap> cand, after;   // last candidates and last survivors
  bool haveAfter = false;
  // model of the current run
  int sel = 0, vary = 0;
  long fail0 = 0;
  double bestFit = 0, prevBest = 0;
  bool havePrevBest = false;
  std::vector<Vec> recModel;
  std::vector<Vec> newborn;        // candidates that still have to be evaluated
  bool monotone = true;

  static constexpr bool greater = !Tr::less;

  void create() {
    s = make<S>();
    lo = (const char*)s;
    hi = lo + sizeof(S);
    observe(this);
    inited = false;
    haveAfter = false;
    after.clear();
    if (s->generation() != 0 || s->failTimes() != 0)
      fail("C10:fresh", "a new solver reports generation %zu and %zu failures", size_t(s->generation()), size_t(s->failTimes()));
  }
  void destroy() {
    unobserve(this);
    unmake(s);
    s = nullptr;
  }
  void configure() {
    const GaCfg& c = gaCfg;
    sut([&] {
      heu::GAOption o;
      o.populationSize = size_t(c.pop);
      o.maxFailTimes = size_t(c.maxFail);
      o.maxGenerations = size_t(c.maxGen);
      o.crossoverProb = c.cx;
      o.mutateProb = c.mu;
      s->setOption(o);
    });
    sut([&] { Tr::setup(*s, c); });
  }
  void init() {
    phase("initializePop");
    mainRec.clearBirths();
    mainRec.calls.clear();
    mainRec.own = ownArgs(*s, 0);
    sut([&] { s->initializePop(); });
    inited = true;
    haveAfter = false;
    newborn = mainRec.born;
    mainRec.born.clear();
    if (newborn.size() != size_t(gaCfg.pop)) fail("C06:init", "initialisation created %zu individuals, %d configured", newborn.size(), gaCfg.pop);
    auto pop = snapPop<Tr>(*s);
    if (pop.size() != newborn.size()) fail("C06:init", "population of %zu after initialisation, %d configured", pop.size(), gaCfg.pop);
    for (auto& p : pop) checkBox(p.x, gaCfg, "initial individual");
    histPop("init", pop, 0);
  }
  void histPop(const char* label, const std::vector<Snap>& pop, uint64_t extra) {
    uint64_t h = hcomb(hstr(label), extra);
    for (auto& p : pop) h = hcomb(h, p.computed ? p.key : p.xkey);
    hist(label, h);
  }
  // everything the user can read (before and after a solver is copied)
  uint64_t fingerprint() {
    auto pop = snapPop<Tr>(*s);
    uint64_t h = 7;
    for (auto& p : pop) h = hcomb(h, hcomb(p.key, p.computed));
    if (haveAfter) h = hcomb(h, results(pop, "of a copied solver"));
    h = hcomb(h, hcomb(s->generation(), s->failTimes()));
    const auto& o = s->option();
    h = hcomb(h, hcomb(hcomb(o.populationSize, o.maxGenerations), hcomb(o.maxFailTimes, hcomb(dbits(o.crossoverProb), dbits(o.mutateProb)))));
    if constexpr (Tr::rec)
      for (const auto& r : s->record()) {
        if constexpr (Tr::mo) h = hcomb(h, vhash(content(r)));
        else h = hcomb(h, dbits(r));
      }
    return h;
  }
  void resnap() {
    if (haveAfter) after = snapPop<Tr>(*s);
  }
  void run() {
    sel = vary = 0;
    recModel.clear();
    havePrevBest = false;
    mainRec.calls.clear();
    phase("run");
    mainRec.own = ownArgs(*s, 0);
    sut([&] { s->run(); });
    phase("after run");
    // ---- C09 / C10
    const long gens = vary;
    if (long(s->generation()) != gens) fail("C10:generation", "generation() is %zu after %ld completed generations", size_t(s->generation()), gens);
    if (gens > gaCfg.maxGen) fail("C09:budget", "%ld generations, at most %d configured", gens, gaCfg.maxGen);
    const long ft = long(s->failTimes());
    if (gens < gaCfg.maxGen && !(gaCfg.maxFail > 0 && ft > gaCfg.maxFail))
      fail("C09:reason", "stopped after %ld of %d generations with %ld failures (limit %d)", gens, gaCfg.maxGen, ft, gaCfg.maxFail);
    if (gens < gaCfg.maxGen) probe("run stopped by failures");
    if (sel != vary + 1) fail("C10:selections", "%d selections in %d completed generations", sel, vary);
    if constexpr (Tr::rec) {
      const auto& r = s->record();
      if (r.size() != recModel.size()) {
        fail("C10:record", "record has %zu entries after %zu selections", r.size(), recModel.size());
      } else {
        for (size_t i = 0; i < r.size(); i++) {
          Vec e;
          if constexpr (Tr::mo) e = content(r[i]);
          else e = Vec{r[i]};
          if (!same(e, recModel[i])) {
            fail("C10:record", "record entry %zu is %s, the best fitness was %s", i, show(e).c_str(), show(recModel[i]).c_str());
            break;
          }
        }
      }
    }
    // ---- the results handed to the user
    auto pop = snapPop<Tr>(*s);
    uint64_t h = hcomb(uint64_t(ft), uint64_t(gens));
    h = hcomb(h, results(pop, "after the run"));
    histPop("result", pop, h);
    stat("generations", double(gens));
    stat("runs", 1);
  }
  // what the user can read; also run after every selection
  uint64_t results(const std::vector<Snap>& pop, const char* when) {
    uint64_t h = 1;
    if constexpr (!Tr::mo) {
      const auto* b = &s->bestGene();
      bool member = false;
      for (auto& p : pop) member = member || p.addr == b;
      if (!member) {
        fail("C07:member", "bestGene() %s is not a member of the population", when);
        if (!live(b, sizeof *b)) fail("C18:best", "bestGene() %s refers to released memory", when);
        return h;
      }
      Vec x = content(b->decision_variable);
      if (!b->is_fitness_computed) fail("C07:evaluated", "bestGene() %s has not been evaluated", when);
      if (dbits(b->fitness) != dbits(land(mainRec.land, x, 0)))
        fail("C07:fitness", "bestGene() %s carries %.17g, the objective gives %.17g", when, b->fitness, land(mainRec.land, x, 0));
      if (dbits(s->bestFitness()) != dbits(b->fitness) || !same(content(s->result()), x))
        fail("C07:report", "bestFitness() or result() %s disagree with bestGene()", when);
      for (auto& p : pop)
        if (p.computed && better(p.fit[0], b->fitness, greater)) {
          fail("C07:best", "a member with fitness %.17g beats the reported best %.17g %s", p.fit[0], b->fitness, when);
          break;
        }
      h = hcomb(vhash(x), dbits(b->fitness));
    } else {
      const auto& pf = s->pfGenes();
      std::vector<const Snap*> in;
      bool ok = true;
      for (const auto* g : pf) {
        const Snap* found = nullptr;
        for (auto& p : pop)
          if (p.addr == g) found = &p;
        if (!found) {
          fail("C11:gone", "a member of the Pareto front %s is not in the population", when);
          if (!live(g, sizeof *g)) fail("C18:front", "the Pareto front %s refers to released memory", when);
          ok = false;
        } else
          in.push_back(found);
      }
      if (!ok) return h;
      if (in.empty()) fail("C11:empty", "the Pareto front is empty %s", when);
      Bag want, got;
      size_t nd = 0;
      for (auto& a : pop) {
        bool dom = false;
        for (auto& b : pop) dom = dom || dominates(b.fit, a.fit, greater);
        if (!dom) {
          nd++;
          want.add(a.key);
        }
      }
      bool bad = false;
      for (auto* p : in) bad = bad || !want.take(p->key);
      if (bad) fail("C11:dominated", "the Pareto front contains a dominated individual %s", when);
      if (want.n && !bad) fail("C11:missing", "%zu of %zu non-dominated individuals are missing from the front %s", want.n, nd, when);
      if (in.size() == pop.size()) probe("whole population non-dominated");
      // the two lists
      std::vector<typename std::decay_t<decltype(*s)>::Fitness_t> fl;
      std::vector<std::pair<const typename Tr::Var*, const typename std::decay_t<decltype(*s)>::Fitness_t*>> pl;
      s->paretoFront(fl);
      s->paretoFront(pl);
      Bag fk, pk;
      for (auto* p : in) {
        fk.add(vhash(p->fit));
        pk.add(p->key);
      }
      bool fbad = fl.size() != in.size(), pbad = pl.size() != in.size();
      for (auto& f : fl) fbad = fbad || !fk.take(vhash(content(f)));
      for (auto& q : pl) {
        if (!live(q.first, sizeof *q.first) || !live(q.second, sizeof *q.second)) {
          fail("C18:front", "a variable-fitness pair of the front %s refers to released memory", when);
          pbad = true;
          break;
        }
        pbad = pbad || !pk.take(vhash(content(*q.second), vhash(content(*q.first))));
      }
      if (fbad) fail("C11:list", "the fitness list of the front disagrees with it %s", when);
      if (pbad) fail("C11:pairs", "the list of variable-fitness pairs disagrees with the front %s", when);
      std::vector<uint64_t> ks;
      for (auto* p : in) ks.push_back(p->key);
      std::sort(ks.begin(), ks.end());
      for (uint64_t k : ks) h = hcomb(h, k);
    }
    return h;
  }
  Vec bestNow(const std::vector<Snap>& pop) const {
    if (pop.empty()) return Vec();
    Vec b = pop.front().fit;
    for (auto& p : pop)
      for (size_t j = 0; j < b.size() && j < p.fit.size(); j++)
        if (better(p.fit[j], b[j], greater)) b[j] = p.fit[j];
    return b;
  }

  void stage(int st) override {
    Rec& R = mainRec;
    if (st == 0) {
      cand = snapPop<Tr>(*s);
      checkCalls(R, newborn, "evaluation");
      checkEvaluated(cand, R.land, "before selection");
      // candidates are exactly the survivors and the new ones
      Bag want;
      if (haveAfter)
        for (auto& p : after) want.add(p.key);
      Bag nb;
      for (auto& x : newborn) nb.add(vhash(x));
      size_t missing = 0;
      for (auto& p : cand)
        if (!want.take(p.key) && !nb.take(p.xkey)) missing++;
      if (missing || want.n || nb.n)
        fail("C01:candidates", "%zu candidates of unknown origin; %zu survivors and %zu new ones are missing", missing, want.n, nb.n);
      newborn.clear();
      R.calls.clear();
      histPop("eval", cand, 0);
      stat("candidates", double(cand.size()));
      return;
    }
    if (st == 1) {
      sel++;
      after = snapPop<Tr>(*s);
      haveAfter = true;
      const GaCfg& c = gaCfg;
      if (!R.calls.empty()) {
        fail("C01:late", "the objective was called %zu times outside the evaluation", R.calls.size());
        R.calls.clear();
      }
      checkEvaluated(after, R.land, "after selection");
      const int method = Tr::mo ? -1 : (Tr::method >= 0 ? Tr::method : c.method);
      checkInclusion(cand, after, size_t(c.pop), method == int(SelectMethod::Tournament));
      uint64_t h = results(after, "after selection");
      Vec best = bestNow(after);
      recModel.push_back(best);
      if constexpr (!Tr::mo) {
        checkSoSelection(cand, after, c, method, greater);
        const long ft = long(s->failTimes());
        if (sel == 1) {
          if (ft != 0 && ft != 1) fail("C10:fail", "%ld failures after the first selection of a run", ft);
        } else {
          const bool improved = better(best[0], prevBest, greater);
          const long want = improved ? 0 : fail0 + 1;
          if (ft != want)
            fail("C10:fail", "failTimes() is %ld, expected %ld (best %.17g after %.17g)", ft, want, best[0], prevBest);
          if (improved) probe("best improved");
          if ((method == int(SelectMethod::Truncation) || method == int(SelectMethod::EliteReserved)) && better(prevBest, best[0], greater))
            fail("C08:monotone", "the best fitness got worse: %.17g after %.17g", best[0], prevBest);
        }
        fail0 = ft;
        prevBest = best[0];
        if (cand.size() <= size_t(c.pop)) probe("selection without surplus");
        else probe("selection with surplus");
      } else {
        auto dom = dominatedCounts(cand, greater);
        std::unordered_map<uint64_t, int> dk;
        for (size_t i = 0; i < cand.size(); i++) dk[cand[i].key] = dom[i];
        std::vector<int> all = dom, kept;
        bool known = true;
        for (auto& p : after) {
          auto it = dk.find(p.key);
          if (it == dk.end()) known = false;
          else kept.push_back(it->second);
        }
        std::sort(all.begin(), all.end());
        std::sort(kept.begin(), kept.end());
        if (known && !kept.empty() && kept.size() < all.size()) {
          for (size_t i = 0; i < kept.size(); i++)
            if (kept[i] != all[i]) {
              fail("C12:layer", "a kept individual is dominated by %d candidates although one dominated by %d was discarded", kept.back(), all[i]);
              break;
            }
          if (all[kept.size()] == kept.back()) probe("critical layer cut");
          else probe("selection at a layer boundary");
        }
        if (Tr::nsga == 2 && known) checkCrowding(cand, dom, after, size_t(c.pop), greater);
        if constexpr (Tr::nsga == 3) Tr::checkNiching(*s, cand, dom, after, size_t(c.pop), known);
        const long ft = long(s->failTimes());
        if (ft > sel) fail("C10:fail", "%ld failures after %d selections", ft, sel);
        fail0 = ft;
      }
      h = hcomb(h, uint64_t(fail0));
      histPop("select", after, h);
      return;
    }
    if (st == 2) {
      vary++;
      const GaCfg& c = gaCfg;
      if (vary > c.maxGen) fail("C09:budget", "generation %d begins, at most %d configured", vary, c.maxGen);
      if (c.maxFail > 0 && fail0 > c.maxFail) fail("C09:failures", "continued after %ld failures, at most %d configured", fail0, c.maxFail);
      auto now = snapPop<Tr>(*s);
      checkVariation(after, now, c, R);
      newborn.clear();
      for (auto& k : R.cross) {
        newborn.push_back(k.c1);
        newborn.push_back(k.c2);
      }
      for (auto& m : R.mut) newborn.push_back(m.dst);
      for (auto& x : newborn) checkBox(x, c, "offspring");
      stat("crossovers", double(R.cross.size()));
      stat("mutations", double(R.mut.size()));
      R.clearBirths();
      histPop("vary", now, 0);
    }
  }
};

// values shared by all workloads of the genetic family
struct GaShape {
  int minPop = 1, maxPop = 26, maxGen = 7;
  bool niches = false;
  bool mo = false;
};
void drawCfg(const std::string& pre, GaCfg& c, const GaShape& sh, Rng* company);

template <class Tr>
struct GaCompany : CompanyBase {
  using S = typename Tr::Solver;
  S* a[2] = {nullptr, nullptr};
  bool ini[2] = {false, false};
  GaCfg cfg[2];
  Land land[2];
  void act(Rng& r) override {
    const int i = int(r.below(2));
    gaCompanyCfg = cfg[i];
    companyRec.land = land[i];
    if (!a[i]) {
      a[i] = make<S>();
      ini[i] = false;
      fresh(i, r);
      return;
    }
    switch (r.below(7)) {
      case 0:
        unmake(a[i]);
        a[i] = nullptr;
        break;
      case 1:
      case 2:
        fresh(i, r);
        break;
      case 3:
        if (ini[i]) sut([&] { a[i]->run(); });
        break;
      default:
        sut([&] { a[i]->initializePop(); });
        ini[i] = true;
        sut([&] { a[i]->run(); });
    }
  }
  void fresh(int i, Rng& r) {
    GaShape sh;
    sh.minPop = 4;
    sh.maxPop = 12;
    sh.maxGen = 3;
    sh.mo = Tr::mo;
    GaCfg c = gaCfg;
    drawCfg("", c, sh, &r);
    c.tag = 5000 + r.below(4000);
    Tr::companyShape(c, r);
    cfg[i] = gaCompanyCfg = c;
    companyRec.on = false;
    companyRec.land.M = c.M;
    companyRec.land.mode = int(r.below(2));
    companyRec.land.salt = r.next();
    companyRec.land.greater = !Tr::less;
    land[i] = companyRec.land;
    ini[i] = false;
    sut([&] {
      heu::GAOption o;
      o.populationSize = size_t(c.pop);
      o.maxFailTimes = size_t(c.maxFail);
      o.maxGenerations = size_t(c.maxGen);
      o.crossoverProb = c.cx;
      o.mutateProb = c.mu;
      a[i]->setOption(o);
      Tr::setup(*a[i], c);
    });
  }
};

template <class Tr>
void gaScenario() {
  static GaHarness<Tr> H;
  static GaCompany<Tr> C;
  company = &C;
  mainRec.on = true;
  set_configured_threads(0);
  const int nth = pickThreads("threads");
  if (nth) {
    sut([&] { heu::setThreadNum(nth); });
    set_configured_threads(nth);
  }
  const int nops = param("ops", 1, 4, 1);
  GaShape sh;
  sh.mo = Tr::mo;
  Tr::shape(sh);
  bool alive = false;
  for (int i = 0; i < nops; i++) {
    char pre[16];
    snprintf(pre, sizeof pre, "%d.", i);
    const std::string P = pre;
    int kind = i == 0 ? 0 : pick((P + "op").c_str(), 0, 0, 1, 1, 2, 3, 4, 5, 5);
    if (kind == 3 && alive) {
      phase("destroy");
      H.destroy();
      alive = false;
    }
    if (!alive) {
      phase("create");
      H.create();
      alive = true;
      if (kind != 0) kind = 0;
    }
    companyTurn(8, 50);
    if (kind == 4) {
      const int t = pickThreads((P + "threads").c_str());
      if (t) {
        sut([&] { heu::setThreadNum(t); });
        set_configured_threads(t);
      }
      kind = 1;
    }
    if (kind == 0 || kind == 2) {  // configure from scratch
      drawCfg(P, gaCfg, sh, nullptr);
      gaCfg.tag = 1 + uint64_t(param((P + "tag").c_str(), 0, 900, 0));
      Tr::drawShape(P, gaCfg);
      mainRec.land = pickLand(P.c_str(), gaCfg.M, !Tr::less, !Tr::mo);
      backstop(gaCfg, mainRec.land, true);
      mainRec.tag = gaCfg.tag;
      phase("configure");
      H.configure();
      companyTurn(8, 50);
      H.init();
      relocate(H, pick((P + "copy0").c_str(), 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6));
      companyTurn(8, 50);
      H.run();
    } else if (kind == 1) {  // run again
      H.run();
    } else if (kind == 5) {  // other options, same population
      GaCfg old = gaCfg;
      drawCfg(P, gaCfg, sh, nullptr);
      gaCfg.M = old.M;
      gaCfg.tag = old.tag;
      gaCfg.lo = old.lo;
      gaCfg.hi = old.hi;
      gaCfg.step = old.step;
      gaCfg.dim = old.dim;
      gaCfg.prec = old.prec;
      gaCfg.prec2 = old.prec2;
      backstop(gaCfg, mainRec.land, false);
      phase("configure");
      H.configure();
      H.run();
    } else {
      H.run();
    }
    companyTurn(8, 50);
    relocate(H, pick((P + "copy").c_str(), 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6));
    if (i == 0) {
      // the options read back are the ones given, whatever other solvers did
      const auto& o = H.s->option();
      if (o.populationSize != size_t(gaCfg.pop) || o.maxGenerations != size_t(gaCfg.maxGen) || o.maxFailTimes != size_t(gaCfg.maxFail) ||
          o.crossoverProb != gaCfg.cx || o.mutateProb != gaCfg.mu)
        fail("C05:option", "option() does not return what setOption() was given");
    }
  }
  phase("destroy");
  if (alive) H.destroy();
}
}  // namespace hx
