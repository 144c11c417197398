// Workload and oracles for atomic orbital search.
#pragma once
#include "pso.hpp"

namespace hx {
struct AosCfg {
  int n = 4, maxGen = 2, maxEarly = 3, maxLayer = 2;
  double photon = 0.1;
  double mu = 0, sigma = 1;
  uint64_t tag = 1;
  GaCfg box;
};
extern AosCfg aosCfg, aosCompanyCfg;
inline AosCfg& curAos() { return inCompany ? aosCompanyCfg : aosCfg; }
void drawAos(const std::string& pre, AosCfg& c, Rng* co);

struct ESnap {
  const void* addr = nullptr;
  Vec x;
  double e = 0;
  bool computed = false;
  uint64_t xkey = 0, key = 0;
};
struct LSnap {
  std::vector<int> member;  // positions in the list of electrons
  Vec bs, best;
  double be = 0;
};
void checkMean(const std::vector<const ESnap*>& e, const Vec& bs, double be, double eps, const char* cls, const char* what);
// every electron has one child; which law made it is known only for the extreme rates
struct Spawn {
  const ESnap* parent = nullptr;
  const LSnap* layer = nullptr;
  int index = 0;
};
// how often a photon child goes further than a part of its reach, against what uniform factors give
struct MoveStat {
  double mu = 0, var = 0;
  long n = 0, far = 0;
};
extern MoveStat moveStat[3];
void moveStatReset();
void moveStatCheck();
void checkChildren(const std::vector<Spawn>& p, const std::vector<const ESnap*>& child, const Vec& atomBest, const Vec& atomBs, const AosCfg& c, bool greater);

template <class V, class A>
struct AFn {
  static void init(V* v, const A* a) {
    checkArgs(a, curAos().tag);
    body(v);
  }
  static void fit(const V* v, const A* a, double* f) {
    checkArgs(a, curAos().tag, true);
    objective<V, double>(v, f);
  }
  static void body(V* p) {
    const GaCfg& b = curAos().box;
    if constexpr (kDyn<V>) {
      if constexpr (kMatrix<V>) p->resize(b.dim / 2, 2);
      else p->resize(size_t(b.dim));
    }
    for (size_t i = 0; i < size_t(p->size()); i++) {
      double l = b.lo[i % b.lo.size()], h = b.hi[i % b.hi.size()];
      if (!std::isfinite(l)) l = -2, h = 2;
      p->data()[i] = heu::randD(l, h);
    }
  }
};
template <class V>
struct AFn<V, void> {
  static void init(V* p) { AFn<V, int>::body(p); }
  static void fit(const V* v, double* f) { objective<V, double>(v, f); }
};

enum { BX_SQUARE, BX_RECT, BX_GAUSS, BX_FIXED, BX_FIXED20 };
template <class V, int BX>
struct AosBox;
template <class V>
struct AosBox<V, BX_SQUARE> {
  using type = CBox<V, false>;
};
template <class V>
struct AosBox<V, BX_RECT> {
  using type = CBox<V, true>;
};
template <class V>
struct AosBox<V, BX_GAUSS> {
  using type = heu::GaussianBox<V>;
};
template <class V>
struct AosBox<V, BX_FIXED> {
  using T = typename heu::array_traits<V>::Scalar_t;
  using type = heu::FixedContinousBox17<V, heu::encode(T(-1.5)), heu::encode(T(2.5)), heu::encode(T(0.25))>;
};
#if __cplusplus >= 202002L
template <class V>
struct AosBox<V, BX_FIXED20> {
  using T = typename heu::array_traits<V>::Scalar_t;
  using type = heu::FixedContinousBox20<V, T(-1.5), T(2.5), T(0.25)>;
};
#endif

template <class V, int BX, bool Less, bool RecF, bool HasArgs, int IM>
struct AosTraits {
  using Var = V;
  using A = std::conditional_t<HasArgs, PArgs, void>;
  using F = AFn<V, A>;
  using Box = typename AosBox<V, BX>::type;
  static constexpr bool less = Less, rec = RecF;
  static constexpr int bx = BX;
  static constexpr auto fo = Less ? heu::FITNESS_LESS_BETTER : heu::FITNESS_GREATER_BETTER;
  static constexpr auto ro = RecF ? heu::RECORD_FITNESS : heu::DONT_RECORD_FITNESS;
  template <int K, class = void>
  struct Pick;
  template <class U>
  struct Pick<0, U> {
    using type = heu::AOS<Box, fo, ro, A>;
  };
  template <class U>
  struct Pick<1, U> {
    using type = heu::AOS<Box, fo, ro, A, nullptr, nullptr>;
  };
  template <class U>
  struct Pick<2, U> {
    using type = heu::AOS<Box, fo, ro, A, F::fit, F::init>;
  };
  using Solver = typename Pick<IM>::type;
  static void setup(Solver& s, const AosCfg& c) {
    using T = typename heu::array_traits<V>::Scalar_t;
    if constexpr (IM < 2) s.setfFun(F::fit);
    if constexpr (IM == 1) s.setiFun(F::init);
    if constexpr (HasArgs) {
      PArgs a;
      sign(a, c.tag);
      s.setArg(a);
    }
    if constexpr (kDyn<V>) {
      if constexpr (kMatrix<V>) s.setDimensions(c.box.dim / 2, 2);
      else s.setDimensions(c.box.dim);
    }
    if constexpr (BX == BX_RECT) {
      s.setRange(filled<V>(c.box.lo, c.box.dim), filled<V>(c.box.hi, c.box.dim));
      s.setDelta(filled<V>(c.box.step, c.box.dim));
    } else if constexpr (BX == BX_SQUARE) {
      s.setRange(T(c.box.lo[0]), T(c.box.hi[0]));
      s.setDelta(T(c.box.step[0]));
    } else if constexpr (BX == BX_GAUSS) {
      s.setMu(T(c.mu));
      s.setSigma(T(c.sigma));
      s.setDelta(T(c.box.step[0]));
    }
  }
  static void shape(const std::string& P, AosCfg& c, Rng* co) {
    using T = typename heu::array_traits<V>::Scalar_t;
    if constexpr (kDyn<V>) {
      int d = co ? 1 + int(co->below(5)) : c.box.extent == EX_COMPONENTS ? param((P + "dims").c_str(), 20, 300, 33) : param((P + "dim").c_str(), 1, 6, 2);
      // normal draws come in pairs: the second half of a pair is part of the state of the random stream
      c.box.dim = kMatrix<V> || BX == BX_GAUSS ? 2 * d : d;
    } else
      c.box.dim = heu::array_traits<V>::sizeCT;
    if constexpr (BX == BX_FIXED || BX == BX_FIXED20) {
      c.box.lo = {-1.5};
      c.box.hi = {2.5};
      c.box.step = {0.25};
    } else {
      c.box.eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
      drawBox(P, c.box, BX == BX_RECT, false, false, co);
      if constexpr (BX == BX_GAUSS) {
        c.mu = T(c.box.lo[0]);
        c.sigma = T(c.box.hi[0] - c.box.lo[0]);
        c.box.lo = {-kInf};
        c.box.hi = {kInf};
      }
    }
    if (std::is_same_v<T, float>)
      for (Vec* v : {&c.box.lo, &c.box.hi, &c.box.step})
        for (double& d : *v) d = float(d);
    c.box.eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
  }
  static void option(Solver& s, const AosCfg& c) {
    heu::AOSOption o;
    o.electronNum = size_t(c.n);
    o.maxGeneration = size_t(c.maxGen);
    o.maxEarlyStop = size_t(c.maxEarly);
    o.maxLayerNum = size_t(c.maxLayer);
    o.photonRate = c.photon;
    s.setOption(o);
  }
};

template <class Tr>
struct AosHarness : ObsBase {
  using S = typename Tr::Solver;
  S* s = nullptr;
  static constexpr bool greater = !Tr::less;
  std::vector<ESnap> cand, after;
  std::vector<LSnap> layers;
  std::vector<Vec> newborn;
  Vec atomBs, atomBest;
  // since initialisation
  std::vector<double> recModel;
  long gens = 0, early = 0;
  int selInit = 0;
  double lastBest = 0;
  // of the run
  int sel = 0, spawns = 0;
  bool stopWanted = false;
  long nonPhoton = 0, children = 0;

  void create() {
    s = make<S>();
    lo = (const char*)s;
    hi = lo + sizeof(S);
    observe(this);
    if (s->generation() != 0 || s->earlyStopCounter() != 0)
      fail("C10:fresh", "a new solver reports generation %zu and early stop counter %zu", size_t(s->generation()), size_t(s->earlyStopCounter()));
  }
  void destroy() {
    unobserve(this);
    unmake(s);
    s = nullptr;
  }
  void configure(bool box) {
    sut([&] { Tr::option(*s, aosCfg); });
    if (box) sut([&] { Tr::setup(*s, aosCfg); });
  }
  std::vector<ESnap> snap() {
    std::vector<ESnap> r;
    for (const auto& e : s->electrons()) {
      ESnap k;
      k.addr = &e;
      k.x = content(e.state);
      k.computed = e.isComputed;
      if (k.computed) k.e = e.energy;
      k.xkey = vhash(k.x);
      k.key = hcomb(k.xkey, k.computed ? dbits(k.e) : 5);
      r.push_back(std::move(k));
    }
    return r;
  }
  void histAll(const char* l, const std::vector<ESnap>& p, uint64_t h) {
    for (auto& k : p) h = hcomb(h, k.key);
    hist(l, hcomb(hstr(l), h));
  }
  void init() {
    phase("initializePop");
    mainRec.calls.clear();
    mainRec.own = ownArgs(*s, 0);
    sut([&] { s->initializePop(); });
    auto p = snap();
    if (p.size() != size_t(aosCfg.n)) fail("C06:init", "%zu electrons after initialisation, %d configured", p.size(), aosCfg.n);
    newborn.clear();
    for (auto& k : p) {
      checkBox(k.x, aosCfg.box, "initial electron");
      newborn.push_back(k.x);
    }
    after.clear();
    recModel.clear();
    gens = early = 0;
    selInit = 0;
    if (s->generation() != 0) fail("C10:generation", "generation() is %zu after the initialisation", size_t(s->generation()));
    histAll("init", p, 0);
  }
  uint64_t fingerprint() {
    uint64_t h = 7;
    auto p = snap();
    for (auto& k : p) h = hcomb(h, k.key);
    if (!after.empty()) {
      checkBest(p, "of a copied solver");
      h = hcomb(hcomb(h, vhash(content(s->bindingState()))), dbits(s->bindingEnergy()));
    }
    for (const auto& l : s->layers()) {
      h = hcomb(h, l.size());
      for (const auto* e : l) {
        bool member = false;
        for (auto& k : p) member = member || k.addr == e;
        if (!member) {
          fail("C17:foreign", "a layer of a copied solver contains an electron that is none of its own");
          return h;
        }
        h = hcomb(h, vhash(content(e->state)));
      }
    }
    h = hcomb(h, hcomb(s->generation(), s->earlyStopCounter()));
    const auto& o = s->option();
    h = hcomb(h, hcomb(hcomb(o.electronNum, o.maxGeneration), hcomb(o.maxEarlyStop, hcomb(o.maxLayerNum, dbits(o.photonRate)))));
    if constexpr (Tr::rec)
      for (double r : s->record()) h = hcomb(h, dbits(r));
    return h;
  }
  void resnap() {
    if (!after.empty()) after = snap();
  }
  void run() {
    sel = spawns = 0;
    stopWanted = false;
    phase("run");
    mainRec.calls.clear();
    mainRec.own = ownArgs(*s, 0);
    sut([&] { s->run(); });
    phase("after run");
    const AosCfg& c = aosCfg;
    if (long(s->generation()) != gens) fail("C10:generation", "generation() is %zu after %ld completed generations", size_t(s->generation()), gens);
    if (sel != spawns + 1) fail("C10:selections", "%d selections in %d completed generations", sel, spawns);
    if (gens < c.maxGen && early < c.maxEarly) fail("C09:reason", "stopped in generation %ld of %d, %ld without improvement (limit %d)", gens, c.maxGen, early, c.maxEarly);
    if (gens < c.maxGen) probe("run stopped early");
    if constexpr (Tr::rec) {
      const auto& r = s->record();
      if (r.size() != recModel.size()) fail("C10:record", "record has %zu entries after %zu selections", r.size(), recModel.size());
      else
        for (size_t i = 0; i < r.size(); i++)
          if (dbits(r[i]) != dbits(recModel[i])) {
            fail("C10:record", "record entry %zu is %.17g, the best energy was %.17g", i, r[i], recModel[i]);
            break;
          }
    }
    auto p = snap();
    checkBest(p, "after the run");
    histAll("result", p, hcomb(uint64_t(early), uint64_t(gens)));
    stat("generations", double(spawns));
    stat("runs", 1);
  }
  void checkBest(const std::vector<ESnap>& p, const char* when) {
    const auto* b = &s->bestElectron();
    bool member = false;
    for (auto& k : p) member = member || k.addr == b;
    if (!member) {
      fail("C07:member", "bestElectron() %s is not a current electron", when);
      if (!live(b, sizeof *b)) fail("C18:best", "bestElectron() %s refers to released memory", when);
      return;
    }
    const Vec x = content(b->state);
    if (!b->isComputed) fail("C07:evaluated", "bestElectron() %s has not been evaluated", when);
    if (dbits(b->energy) != dbits(land(mainRec.land, x, 0)))
      fail("C07:fitness", "bestElectron() %s carries %.17g, the objective gives %.17g", when, b->energy, land(mainRec.land, x, 0));
    for (auto& k : p)
      if (k.computed && better(k.e, b->energy, greater)) {
        fail("C07:best", "an electron with energy %.17g beats the reported best %.17g %s", k.e, b->energy, when);
        return;
      }
  }
  void checkFitness(const std::vector<ESnap>& p, const char* when) {
    for (auto& k : p) {
      if (!k.computed) {
        fail("C01:unevaluated", "an electron is not marked as evaluated %s", when);
        return;
      }
      const double f = land(mainRec.land, k.x, 0);
      if (dbits(f) != dbits(k.e)) {
        fail("C01:fitness", "an electron at %s carries energy %.17g %s, the objective gives %.17g", show(k.x).c_str(), k.e, when, f);
        return;
      }
    }
  }
  void stage(int st) override {
    const AosCfg& c = aosCfg;
    if (st == 0) {
      cand = snap();
      checkCalls(mainRec, newborn, "evaluation");
      mainRec.calls.clear();
      checkFitness(cand, "before selection");
      Bag want, nb;
      for (auto& p : after) want.add(p.key);
      for (auto& x : newborn) nb.add(vhash(x));
      size_t odd = 0;
      for (auto& p : cand)
        if (!want.take(p.key) && !nb.take(p.xkey)) odd++;
      if (odd || want.n || nb.n) fail("C01:candidates", "%zu electrons of unknown origin; %zu old and %zu new ones are missing", odd, want.n, nb.n);
      newborn.clear();
      histAll("eval", cand, 0);
      stat("candidates", double(cand.size()));
      return;
    }
    if (!mainRec.calls.empty()) {
      fail("C01:late", "the objective was called outside the evaluation");
      mainRec.calls.clear();
    }
    if (st == 1) {
      std::vector<const ESnap*> all;
      for (auto& p : cand) all.push_back(&p);
      atomBs = content(s->bindingState());
      const double be = s->bindingEnergy();
      checkMean(all, atomBs, be, c.box.eps, "C17:atom", "the atom");
      checkBest(cand, "before selection");
      const double best = s->bestElectron().energy;
      const long ec = long(s->earlyStopCounter());
      if (selInit == 0) {
        if (ec != 0 && ec != 1) fail("C10:early", "earlyStopCounter() is %ld in the first generation", ec);
      } else {
        const long want = dbits(best) == dbits(lastBest) ? early + 1 : 0;
        if (ec != want) fail("C10:early", "earlyStopCounter() is %ld, expected %ld (best %.17g after %.17g)", ec, want, best, lastBest);
        if (better(lastBest, best, greater)) fail("C08:monotone", "the best energy got worse: %.17g after %.17g", best, lastBest);
        if (want == 0) probe("best improved");
      }
      early = ec;
      lastBest = best;
      recModel.push_back(best);
      hist("atom", hcomb(hcomb(vhash(atomBs), dbits(be)), hcomb(dbits(best), uint64_t(ec))));
      return;
    }
    if (st == 2) {
      sel++;
      selInit++;
      after = snap();
      checkInclusionE();
      checkFitness(after, "after selection");
      checkBest(after, "after selection");
      readLayers();
      if (layers.empty()) fail("C17:layers", "there are no layers");
      if (int(layers.size()) > c.maxLayer) fail("C17:layers", "%zu layers, at most %d configured", layers.size(), c.maxLayer);
      if (layers.size() > 1) probe("several layers");
      std::vector<int> seen(after.size(), 0);
      for (size_t k = 0; k < layers.size(); k++) {
        if (layers[k].member.empty()) fail("C17:empty", "layer %zu of %zu is empty", k, layers.size());
        for (int i : layers[k].member) {
          if (i < 0) {
            fail("C17:member", "layer %zu contains an electron that does not exist", k);
            return;
          }
          seen[size_t(i)]++;
          if (k + 1 < layers.size())
            for (int j : layers[k + 1].member)
              if (j >= 0 && better(after[size_t(j)].e, after[size_t(i)].e, greater)) {
                fail("C17:order", "an electron of layer %zu (%.17g) beats one of layer %zu (%.17g)", k + 1, after[size_t(j)].e, k, after[size_t(i)].e);
                return;
              }
        }
      }
      for (size_t i = 0; i < seen.size(); i++)
        if (seen[i] != 1) {
          fail("C17:partition", "an electron belongs to %d layers", seen[i]);
          break;
        }
      uint64_t h = layers.size();
      for (auto& l : layers) {
        h = hcomb(h, 77);
        for (int i : l.member) h = hcomb(h, after[size_t(i)].key);
      }
      histAll("select", after, h);
      if (gens >= c.maxGen || early >= c.maxEarly) stopWanted = true;
      return;
    }
    if (st == 3) {
      if (stopWanted) fail("C09:continue", "went on in generation %ld of %d with %ld generations without improvement (limit %d)", gens, c.maxGen, early, c.maxEarly);
      readLayers();
      uint64_t h = 1;
      size_t k = 0;
      for (const auto& l : s->layers()) {
        LSnap& m = layers[k];
        m.bs = content(l.bindingState);
        m.be = l.bindingEnergy;
        std::vector<const ESnap*> all;
        for (int i : m.member)
          if (i >= 0) all.push_back(&after[size_t(i)]);
        checkMean(all, m.bs, m.be, c.box.eps, "C17:layer", "a layer");
        if (l.layerBestIdx < 0 || size_t(l.layerBestIdx) >= l.size()) fail("C17:layerbest", "the best of a layer of %zu is number %d", l.size(), l.layerBestIdx);
        else {
          m.best = content(l.layerBestState());
          const double e = l.layerBestEnergy();
          for (auto* q : all)
            if (better(q->e, e, greater)) {
              fail("C17:layerbest", "the best of a layer has energy %.17g, a member has %.17g", e, q->e);
              break;
            }
          h = hcomb(h, hcomb(vhash(m.best), dbits(e)));
        }
        h = hcomb(h, hcomb(vhash(m.bs), dbits(m.be)));
        k++;
      }
      atomBest = content(s->bestElectron().state);
      hist("layers", h);
      return;
    }
    if (st == 4) {
      spawns++;
      gens++;
      auto now = snap();
      // the old ones are untouched, one new one each
      std::vector<const ESnap*> born;
      Bag old;
      for (auto& p : after) old.add(p.key);
      size_t stray = 0;
      for (auto& p : now) {
        if (p.computed) {
          if (!old.take(p.key)) stray++;
        } else
          born.push_back(&p);
      }
      if (stray || old.n) fail("C17:survivor", "%zu electrons were changed or lost while new ones were made", old.n + stray);
      if (born.size() != after.size()) fail("C17:count", "%zu electrons made %zu new ones", after.size(), born.size());
      for (auto* b : born) {
        checkBox(b->x, c.box, "electron");
        newborn.push_back(b->x);
      }
      std::vector<Spawn> par;
      for (size_t k = 0; k < layers.size(); k++)
        for (int i : layers[k].member)
          if (i >= 0) par.push_back({&after[size_t(i)], &layers[k], int(k)});
      if (par.size() == born.size()) checkChildren(par, born, atomBest, atomBs, c, greater);
      histAll("spawn", now, 0);
      return;
    }
  }
  void readLayers() {
    std::unordered_map<const void*, int> pos;
    for (size_t i = 0; i < after.size(); i++) pos[after[i].addr] = int(i);
    layers.clear();
    for (const auto& l : s->layers()) {
      LSnap m;
      for (const auto* e : l) {
        auto it = pos.find(e);
        m.member.push_back(it == pos.end() ? -1 : it->second);
      }
      layers.push_back(std::move(m));
    }
  }
  void checkInclusionE() {
    const size_t K = size_t(aosCfg.n), want = std::min(K, cand.size());
    if (after.size() != want) fail("C06:size", "%zu electrons after a selection among %zu, configured are %zu", after.size(), cand.size(), K);
    Bag b;
    for (auto& p : cand) b.add(p.key);
    for (auto& a : after)
      if (!b.take(a.key)) {
        fail("C06:foreign", "an electron after the selection was none before (or has been changed or copied)");
        return;
      }
    Vec x, y;
    for (auto& p : cand) x.push_back(p.e);
    for (auto& p : after) y.push_back(p.e);
    auto cmp = [&](double p, double q) { return better(p, q, greater); };
    std::sort(x.begin(), x.end(), cmp);
    std::sort(y.begin(), y.end(), cmp);
    for (size_t i = 0; i < x.size() && i < y.size(); i++)
      if (x[i] != y[i]) {
        fail("C08:electrons", "the electron of rank %zu has energy %.17g, the candidates offer %.17g", i, y[i], x[i]);
        return;
      }
    if (cand.size() > K) probe("selection with surplus");
  }
};

template <class Tr>
struct AosCompany : CompanyBase {
  using S = typename Tr::Solver;
  S* a[2] = {nullptr, nullptr};
  bool ini[2] = {false, false};
  AosCfg cfg[2];
  Land land[2];
  void act(Rng& r) override {
    const int i = int(r.below(2));
    aosCompanyCfg = cfg[i];
    companyRec.land = land[i];
    if (!a[i]) {
      a[i] = make<S>();
      fresh(i, r);
      return;
    }
    switch (r.below(7)) {
      case 0:
        unmake(a[i]);
        a[i] = nullptr;
        break;
      case 1:
      case 2:
        fresh(i, r);
        break;
      case 3:
        if (ini[i]) sut([&] { a[i]->run(); });
        break;
      default:
        sut([&] { a[i]->initializePop(); });
        ini[i] = true;
        sut([&] { a[i]->run(); });
    }
  }
  void fresh(int i, Rng& r) {
    AosCfg c;
    drawAos("", c, &r);
    Tr::shape("", c, &r);
    c.tag = 5000 + r.below(4000);
    cfg[i] = aosCompanyCfg = c;
    companyRec.on = false;
    companyRec.land = Land();
    companyRec.land.mode = int(r.below(2));
    companyRec.land.salt = r.next();
    companyRec.land.greater = !Tr::less;
    land[i] = companyRec.land;
    ini[i] = false;
    sut([&] {
      Tr::option(*a[i], c);
      Tr::setup(*a[i], c);
    });
  }
};

template <class Tr>
void aosScenario() {
  static AosHarness<Tr> H;
  static AosCompany<Tr> C;
  company = &C;
  moveStatReset();
  mainRec.on = true;
  set_configured_threads(0);
  const int nth = pickThreads("threads");
  if (nth) {
    sut([&] { heu::setThreadNum(nth); });
    set_configured_threads(nth);
  }
  const int nops = param("ops", 1, 4, 1);
  bool alive = false;
  for (int i = 0; i < nops; i++) {
    const std::string P = std::to_string(i) + ".";
    int kind = i == 0 ? 0 : pick((P + "op").c_str(), 0, 0, 1, 1, 2, 3, 4, 5, 5);
    if (kind == 3 && alive) {
      phase("destroy");
      H.destroy();
      alive = false;
    }
    if (!alive) {
      phase("create");
      H.create();
      alive = true;
      kind = 0;
    }
    companyTurn(8, 50);
    if (kind == 4) {
      const int t = pickThreads((P + "threads").c_str());
      if (t) {
        sut([&] { heu::setThreadNum(t); });
        set_configured_threads(t);
      }
      kind = 1;
    }
    if (kind == 0 || kind == 2) {
      drawAos(P, aosCfg, nullptr);
      Tr::shape(P, aosCfg, nullptr);
      aosCfg.tag = 1 + uint64_t(param((P + "tag").c_str(), 0, 900, 0));
      mainRec.land = pickLand(P.c_str(), 1, !Tr::less, true);
      backstop(aosCfg, mainRec.land, true);
      phase("configure");
      H.configure(true);
      companyTurn(8, 50);
      H.init();
      relocate(H, pick((P + "copy0").c_str(), 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6));
      companyTurn(8, 50);
      H.run();
    } else if (kind == 5) {  // other options, population kept
      AosCfg old = aosCfg;
      drawAos(P, aosCfg, nullptr);
      aosCfg.box = old.box;
      aosCfg.tag = old.tag;
      aosCfg.mu = old.mu;
      aosCfg.sigma = old.sigma;
      backstop(aosCfg, mainRec.land, false);
      H.configure(false);
      H.run();
    } else
      H.run();
    companyTurn(8, 50);
    relocate(H, pick((P + "copy").c_str(), 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6));
    const auto& o = H.s->option();
    if (o.electronNum != size_t(aosCfg.n) || o.maxGeneration != size_t(aosCfg.maxGen) || o.maxEarlyStop != size_t(aosCfg.maxEarly) ||
        o.maxLayerNum != size_t(aosCfg.maxLayer) || o.photonRate != aosCfg.photon)
      fail("C05:option", "option() does not return what setOption() was given");
  }
  moveStatCheck();
  phase("destroy");
  if (alive) H.destroy();
}
}  // namespace hx
