// Workload and oracles for the particle swarm solvers.
#pragma once
#include "ga_tr.hpp"

namespace hx {
struct PsoCfg {
  int pop = 6, maxGen = 3, maxFail = 0;
  double w = 0.8, c1 = 2, c2 = 2;
  uint64_t tag = 1;
  GaCfg box;  // lo, hi, step = velocity limit
};
extern PsoCfg psoCfg, psoCompanyCfg;
inline PsoCfg& curPso() { return inCompany ? psoCompanyCfg : psoCfg; }
void drawPso(const std::string& pre, PsoCfg& c, Rng* co);

struct PSnap {
  Vec x, v, px;
  double f = 0, pf = 0;
};
// the law of motion: is there a pair of factors in the unit square that explains the new velocity?
struct MoveStats {
  size_t moves = 0;  // also those whose factors the limits hide
  Vec r1, r2;
};
void checkMove(size_t i, const PSnap& o, const PSnap& n, const Vec& g, const PsoCfg& c, MoveStats& ms);
void checkMoveStats(const MoveStats& ms, bool oneGeneration);

template <class V, class A>
struct PFn {
  static void init(V* p, V* v, const A* a) {
    checkArgs(a, curPso().tag);
    body(p, v);
  }
  static void fit(const V* v, const A* a, double* f) {
    checkArgs(a, curPso().tag, true);
    objective<V, double>(v, f);
  }
  static void body(V* p, V* v) {
    const GaCfg& b = curPso().box;
    if constexpr (kDyn<V>) {
      if constexpr (kMatrix<V>) {
        p->resize(b.dim / 2, 2);
        v->resize(b.dim / 2, 2);
      } else {
        p->resize(size_t(b.dim));
        v->resize(size_t(b.dim));
      }
    }
    for (size_t i = 0; i < size_t(p->size()); i++) {
      const double l = b.lo[i % b.lo.size()], h = b.hi[i % b.hi.size()], m = b.step[i % b.step.size()];
      p->data()[i] = heu::randD(l, h);
      v->data()[i] = heu::randD(-m, m);
    }
  }
};
template <class V>
struct PFn<V, void> {
  static void init(V* p, V* v) { PFn<V, int>::body(p, v); }
  static void fit(const V* v, double* f) { objective<V, double>(v, f); }
};
struct PArgs {
  uint64_t tag = 0;
  std::vector<double> payload;
};

// IM: 0 default initialisation, 1 function given at run time, 2 both functions given as template arguments
template <class V, bool Rect, bool Less, bool RecF, bool HasArgs, int IM>
struct PsoTraits {
  using Var = V;
  using A = std::conditional_t<HasArgs, PArgs, void>;
  using F = PFn<V, A>;
  static constexpr bool less = Less, rec = RecF, rect = Rect;
  static constexpr auto bs = Rect ? heu::BoxShape::RECTANGLE_BOX : heu::BoxShape::SQUARE_BOX;
  static constexpr auto fo = Less ? heu::FITNESS_LESS_BETTER : heu::FITNESS_GREATER_BETTER;
  static constexpr auto ro = RecF ? heu::RECORD_FITNESS : heu::DONT_RECORD_FITNESS;
  template <int K, class = void>
  struct Pick;
  template <class U>
  struct Pick<0, U> {
    using type = heu::PSO<V, bs, fo, ro, A>;
  };
  template <class U>
  struct Pick<1, U> {
    using type = heu::PSO<V, bs, fo, ro, A, nullptr, nullptr>;
  };
  template <class U>
  struct Pick<2, U> {
    using type = heu::PSO<V, bs, fo, ro, A, F::fit, F::init>;
  };
  using Solver = typename Pick<IM>::type;
  static void setup(Solver& s, const PsoCfg& c) {
    if constexpr (IM < 2) s.setfFun(F::fit);
    if constexpr (IM == 1) s.setiFun(F::init);
    if constexpr (HasArgs) {
      PArgs a;
      sign(a, c.tag);
      s.setArgs(a);
    }
    if constexpr (kDyn<V>) {
      if constexpr (kMatrix<V>) s.setDimensions(c.box.dim / 2, 2);
      else s.setDimensions(c.box.dim);
    }
    if constexpr (Rect) s.setPVRange(filled<V>(c.box.lo, c.box.dim), filled<V>(c.box.hi, c.box.dim), filled<V>(c.box.step, c.box.dim));
    else {
      using T = typename heu::array_traits<V>::Scalar_t;
      s.setPVRange(T(c.box.lo[0]), T(c.box.hi[0]), T(c.box.step[0]));
    }
  }
  static void option(Solver& s, const PsoCfg& c) {
    heu::PSOOption o;
    o.populationSize = size_t(c.pop);
    o.maxGeneration = size_t(c.maxGen);
    o.maxFailTimes = size_t(c.maxFail);
    o.inertiaFactor = c.w;
    o.learnFactorP = c.c1;
    o.learnFactorG = c.c2;
    s.setOption(o);
  }
};

template <class Tr>
struct PsoHarness : ObsBase {
  using S = typename Tr::Solver;
  S* s = nullptr;
  static constexpr bool greater = !Tr::less;
  std::vector<PSnap> before;
  Vec gBefore;
  // since initialisation
  std::vector<double> bestSeen;
  std::vector<std::unordered_map<uint64_t, double>> visited;
  double swarmBest = 0;
  bool haveSwarm = false;
  // of the run
  int sel = 0, moves = 0;
  long fail0 = 0;
  double lastBest = 0;
  std::vector<double> recModel;
  MoveStats ms;

  void create() {
    s = make<S>();
    lo = (const char*)s;
    hi = lo + sizeof(S);
    observe(this);
    if (s->generation() != 0 || s->failTimes() != 0)
      fail("C10:fresh", "a new solver reports generation %zu and %zu failures", size_t(s->generation()), size_t(s->failTimes()));
  }
  void destroy() {
    unobserve(this);
    unmake(s);
    s = nullptr;
  }
  void configure(bool box) {
    sut([&] { Tr::option(*s, psoCfg); });
    if (box) sut([&] { Tr::setup(*s, psoCfg); });
  }
  std::vector<PSnap> snap() {
    std::vector<PSnap> r;
    for (const auto& p : s->population()) {
      PSnap k;
      k.x = content(p.position);
      k.v = content(p.velocity);
      k.f = p.fitness;
      k.px = content(p.pBest.position);
      k.pf = p.pBest.fitness;
      r.push_back(std::move(k));
    }
    return r;
  }
  void histAll(const char* l, const std::vector<PSnap>& p, uint64_t h) {
    for (auto& k : p) {
      h = hcomb(hcomb(vhash(k.x, h), vhash(k.v)), vhash(k.px));
      h = hcomb(h, hcomb(dbits(k.f), dbits(k.pf)));
    }
    h = hcomb(h, hcomb(dbits(s->bestFitness()), vhash(content(s->globalBest().position))));
    hist(l, hcomb(hstr(l), h));
  }
  void limits(const std::vector<PSnap>& p, const char* what) {
    GaCfg vel = psoCfg.box;
    vel.hi = vel.step;
    vel.lo = vel.step;
    for (double& d : vel.lo) d = -d;
    for (auto& k : p) {
      checkBox(k.x, psoCfg.box, what);
      for (size_t i = 0; i < k.v.size(); i++) {
        const double m = vel.hi[i % vel.hi.size()];
        if (!(std::fabs(k.v[i]) <= m * (1 + 4 * vel.eps))) {
          fail("C14:velocity", "component %zu of the velocity of a particle is %.17g, the limit is %.17g", i, k.v[i], m);
          return;
        }
        if (std::fabs(k.v[i]) == m) probe("velocity on the limit");
      }
    }
  }
  void expectCalls(const std::vector<PSnap>& p, const char* when) {
    std::vector<Vec> e;
    for (auto& k : p) e.push_back(k.x);
    checkCalls(mainRec, e, when);
    for (auto& k : p) {
      const double f = land(mainRec.land, k.x, 0);
      if (dbits(f) != dbits(k.f)) {
        fail("C01:fitness", "a particle at %s carries fitness %.17g after the %s, the objective gives %.17g", show(k.x).c_str(), k.f, when, f);
        return;
      }
    }
    mainRec.calls.clear();
  }
  void init() {
    phase("initializePop");
    mainRec.calls.clear();
    mainRec.own = ownArgs(*s, 0);
    sut([&] { s->initializePop(); });
    auto p = snap();
    if (p.size() != size_t(psoCfg.pop)) fail("C06:init", "%zu particles after initialisation, %d configured", p.size(), psoCfg.pop);
    limits(p, "initial particle");
    expectCalls(p, "initialisation");
    bestSeen.clear();
    visited.assign(p.size(), {});
    for (size_t i = 0; i < p.size(); i++) {
      bestSeen.push_back(p[i].f);
      visited[i][vhash(p[i].x)] = p[i].f;
      if (i == 0 || better(p[i].f, swarmBest, greater)) swarmBest = p[i].f;
    }
    histAll("init", p, 0);
  }
  uint64_t fingerprint() {
    uint64_t h = 7;
    for (auto& k : snap()) h = hcomb(hcomb(h, hcomb(vhash(k.x), vhash(k.v))), hcomb(vhash(k.px), hcomb(dbits(k.f), dbits(k.pf))));
    h = hcomb(h, hcomb(dbits(s->bestFitness()), vhash(content(s->globalBest().position))));
    h = hcomb(h, hcomb(s->generation(), s->failTimes()));
    const auto& o = s->option();
    h = hcomb(h, hcomb(hcomb(o.populationSize, o.maxGeneration), hcomb(o.maxFailTimes, hcomb(dbits(o.inertiaFactor), hcomb(dbits(o.learnFactorP), dbits(o.learnFactorG))))));
    if constexpr (Tr::rec)
      for (double r : s->record()) h = hcomb(h, dbits(r));
    return h;
  }
  void resnap() {}
  void run() {
    sel = moves = 0;
    recModel.clear();
    ms = MoveStats();
    phase("run");
    mainRec.calls.clear();
    mainRec.own = ownArgs(*s, 0);
    sut([&] { s->run(); });
    phase("after run");
    const PsoCfg& c = psoCfg;
    if (long(s->generation()) != moves) fail("C10:generation", "generation() is %zu after %d completed generations", size_t(s->generation()), moves);
    if (sel != moves + 1) fail("C10:selections", "%d updates of the bests in %d completed generations", sel, moves);
    if (moves > c.maxGen) fail("C09:budget", "%d generations, at most %d configured", moves, c.maxGen);
    const long ft = long(s->failTimes());
    if (moves < c.maxGen && !(c.maxFail > 0 && ft > c.maxFail))
      fail("C09:reason", "stopped after %d of %d generations with %ld failures (limit %d)", moves, c.maxGen, ft, c.maxFail);
    if (moves < c.maxGen) probe("run stopped by failures");
    if constexpr (Tr::rec) {
      const auto& r = s->record();
      if (r.size() != recModel.size()) fail("C10:record", "record has %zu entries after %zu updates", r.size(), recModel.size());
      else
        for (size_t i = 0; i < r.size(); i++)
          if (dbits(r[i]) != dbits(recModel[i])) {
            fail("C10:record", "record entry %zu is %.17g, the best fitness was %.17g", i, r[i], recModel[i]);
            break;
          }
    }
    auto p = snap();
    histAll("result", p, hcomb(uint64_t(ft), uint64_t(moves)));
    checkMoveStats(ms, false);
    stat("generations", double(moves));
    stat("runs", 1);
  }
  void stage(int st) override {
    if (st == 0) {
      auto p = snap();
      expectCalls(p, "evaluation");
      if (p.size() != visited.size()) {
        fail("C06:size", "%zu particles, %zu were initialised", p.size(), visited.size());
        return;
      }
      for (size_t i = 0; i < p.size(); i++) {
        visited[i][vhash(p[i].x)] = p[i].f;
        if (better(p[i].f, bestSeen[i], greater)) bestSeen[i] = p[i].f;
        if (better(p[i].f, swarmBest, greater)) swarmBest = p[i].f;
      }
      histAll("eval", p, 0);
      stat("candidates", double(p.size()));
      return;
    }
    if (st == 1) {
      sel++;
      before = snap();
      const auto& g = s->globalBest();
      gBefore = content(g.position);
      if (!mainRec.calls.empty()) fail("C01:late", "the objective was called outside the evaluation");
      if (before.size() != visited.size()) return;
      for (size_t i = 0; i < before.size(); i++) {
        auto& k = before[i];
        if (dbits(k.pf) != dbits(bestSeen[i])) {
          fail("C07:pbest", "the best of particle %zu is %.17g, the best value it has seen is %.17g", i, k.pf, bestSeen[i]);
          break;
        }
        auto it = visited[i].find(vhash(k.px));
        if (it == visited[i].end() || dbits(it->second) != dbits(k.pf)) {
          fail("C07:pbest", "the best position of particle %zu was not visited by it with that fitness", i);
          break;
        }
      }
      if (dbits(g.fitness) != dbits(swarmBest))
        fail("C07:gbest", "the swarm's best is %.17g, the best value seen since initialisation is %.17g", g.fitness, swarmBest);
      if (dbits(s->bestFitness()) != dbits(g.fitness)) fail("C07:report", "bestFitness() is %.17g, globalBest() carries %.17g", s->bestFitness(), g.fitness);
      if (dbits(land(mainRec.land, gBefore, 0)) != dbits(g.fitness))
        fail("C07:fitness", "globalBest() carries %.17g, the objective gives %.17g", g.fitness, land(mainRec.land, gBefore, 0));
      bool seen = false;
      for (auto& v : visited) seen = seen || v.count(vhash(gBefore));
      if (!seen) fail("C07:evaluated", "the position of the swarm's best was never evaluated");
      recModel.push_back(g.fitness);
      const long ft = long(s->failTimes());
      if (sel == 1) {
        if (ft != 0 && ft != 1) fail("C10:fail", "%ld failures after the first generation of a run", ft);
      } else {
        const bool imp = better(g.fitness, lastBest, greater);
        const long want = imp ? 0 : fail0 + 1;
        if (ft != want) fail("C10:fail", "failTimes() is %ld, expected %ld (best %.17g after %.17g)", ft, want, g.fitness, lastBest);
        if (imp) probe("best improved");
        if (better(lastBest, g.fitness, greater)) fail("C08:monotone", "the swarm's best got worse: %.17g after %.17g", g.fitness, lastBest);
      }
      lastBest = g.fitness;
      fail0 = ft;
      histAll("update", before, uint64_t(ft));
      return;
    }
    if (st == 2) {
      moves++;
      const PsoCfg& c = psoCfg;
      if (moves > c.maxGen) fail("C09:budget", "generation %d begins, at most %d configured", moves, c.maxGen);
      if (c.maxFail > 0 && fail0 > c.maxFail) fail("C09:failures", "continued after %ld failures, at most %d configured", fail0, c.maxFail);
      auto now = snap();
      if (!mainRec.calls.empty()) fail("C01:late", "the objective was called outside the evaluation");
      limits(now, "particle");
      if (now.size() == before.size()) {
        MoveStats one;
        for (size_t i = 0; i < now.size(); i++) {
          if (dbits(now[i].pf) != dbits(before[i].pf) || !same(now[i].px, before[i].px)) fail("C07:pbest", "a particle's best changed while the swarm moved");
          checkMove(i, before[i], now[i], gBefore, c, one);
        }
        checkMoveStats(one, true);
        ms.moves += now.size();
        for (double d : one.r1) ms.r1.push_back(d);
        for (double d : one.r2) ms.r2.push_back(d);
      } else
        fail("C06:size", "%zu particles after a move of %zu", now.size(), before.size());
      histAll("move", now, 0);
    }
  }
};

template <class V, bool Rect>
void psoBox(const std::string& P, PsoCfg& c, Rng* co) {
  using T = typename heu::array_traits<V>::Scalar_t;
  if constexpr (kDyn<V>) {
    int d = co ? 1 + int(co->below(5)) : c.box.extent == EX_COMPONENTS ? param((P + "dims").c_str(), 20, 300, 33) : param((P + "dim").c_str(), 1, 6, 2);
    c.box.dim = kMatrix<V> ? 2 * d : d;
  } else
    c.box.dim = heu::array_traits<V>::sizeCT;
  c.box.eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
  drawBox(P, c.box, Rect, false, false, co);
  if (std::is_same_v<T, float>)
    for (Vec* v : {&c.box.lo, &c.box.hi, &c.box.step})
      for (double& d : *v) d = float(d);
  c.box.eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
}

template <class Tr>
struct PsoCompany : CompanyBase {
  using S = typename Tr::Solver;
  S* a[2] = {nullptr, nullptr};
  bool ini[2] = {false, false};
  PsoCfg cfg[2];
  Land land[2];
  void act(Rng& r) override {
    const int i = int(r.below(2));
    psoCompanyCfg = cfg[i];
    companyRec.land = land[i];
    if (!a[i]) {
      a[i] = make<S>();
      fresh(i, r);
      return;
    }
    switch (r.below(7)) {
      case 0:
        unmake(a[i]);
        a[i] = nullptr;
        break;
      case 1:
      case 2:
        fresh(i, r);
        break;
      case 3:
        if (ini[i]) sut([&] { a[i]->run(); });
        break;
      default:
        sut([&] { a[i]->initializePop(); });
        ini[i] = true;
        sut([&] { a[i]->run(); });
    }
  }
  void fresh(int i, Rng& r) {
    PsoCfg c;
    drawPso("", c, &r);
    psoBox<typename Tr::Var, Tr::rect>("", c, &r);
    c.tag = 5000 + r.below(4000);
    cfg[i] = psoCompanyCfg = c;
    companyRec.on = false;
    companyRec.land = Land();
    companyRec.land.mode = int(r.below(2));
    companyRec.land.salt = r.next();
    companyRec.land.greater = !Tr::less;
    land[i] = companyRec.land;
    ini[i] = false;
    sut([&] {
      Tr::option(*a[i], c);
      Tr::setup(*a[i], c);
    });
  }
};

template <class Tr>
void psoScenario() {
  static PsoHarness<Tr> H;
  static PsoCompany<Tr> C;
  company = &C;
  mainRec.on = true;
  set_configured_threads(0);
  const int nth = pickThreads("threads");
  if (nth) {
    sut([&] { heu::setThreadNum(nth); });
    set_configured_threads(nth);
  }
  const int nops = param("ops", 1, 4, 1);
  bool alive = false;
  for (int i = 0; i < nops; i++) {
    const std::string P = std::to_string(i) + ".";
    int kind = i == 0 ? 0 : pick((P + "op").c_str(), 0, 0, 1, 1, 2, 3, 4, 5, 5);
    if (kind == 3 && alive) {
      phase("destroy");
      H.destroy();
      alive = false;
    }
    if (!alive) {
      phase("create");
      H.create();
      alive = true;
      kind = 0;
    }
    companyTurn(8, 50);
    if (kind == 4) {
      const int t = pickThreads((P + "threads").c_str());
      if (t) {
        sut([&] { heu::setThreadNum(t); });
        set_configured_threads(t);
      }
      kind = 1;
    }
    if (kind == 0 || kind == 2) {
      drawPso(P, psoCfg, nullptr);
      psoBox<typename Tr::Var, Tr::rect>(P, psoCfg, nullptr);
      psoCfg.tag = 1 + uint64_t(param((P + "tag").c_str(), 0, 900, 0));
      mainRec.land = pickLand(P.c_str(), 1, !Tr::less, true);
      backstop(psoCfg, mainRec.land, true);
      phase("configure");
      H.configure(true);
      companyTurn(8, 50);
      H.init();
      relocate(H, pick((P + "copy0").c_str(), 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6));
      companyTurn(8, 50);
      H.run();
    } else if (kind == 5) {
      PsoCfg old = psoCfg;
      drawPso(P, psoCfg, nullptr);
      psoCfg.box = old.box;
      psoCfg.tag = old.tag;
      backstop(psoCfg, mainRec.land, false);
      H.configure(false);
      H.run();
    } else
      H.run();
    companyTurn(8, 50);
    relocate(H, pick((P + "copy").c_str(), 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6));
    const auto& o = H.s->option();
    if (o.populationSize != size_t(psoCfg.pop) || o.maxGeneration != size_t(psoCfg.maxGen) || o.maxFailTimes != size_t(psoCfg.maxFail) ||
        o.inertiaFactor != psoCfg.w || o.learnFactorP != psoCfg.c1 || o.learnFactorG != psoCfg.c2)
      fail("C05:option", "option() does not return what setOption() was given");
  }
  phase("destroy");
  if (alive) H.destroy();
}
}  // namespace hx
